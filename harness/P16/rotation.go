//verif:pkg proxy/internal/tokenmanager
//verif:use jwt.go
//verif:use store.go
//verif:unit name=history entry=VerifP16History share=4 synctest q.H=4 t.H=7 reach=restart,expired,younger,dropped,alive
//verif:unit name=failure entry=VerifP16Failure share=2 synctest reach=failed,ok,restart
//verif:unit name=race entry=VerifP16Race share=1 race synctest q.P=1 t.P=2 reach=rotated
//verif:note tokens live for at most 20 hours, the longest lifetime given to any; one downtime of any number of seconds up to 40 days after 0 to 200 hours of operation, then up to 32 hours of hourly rotation
package tokenmanager

import (
	"context"
	"fmt"
	"time"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

const vfLife = 20 * time.Hour

type vfLog struct{}

func (vfLog) Errorf(string, ...any) {}

type vfRot struct {
	store *vfStore
	keys  *vfKeys
	tm    *TokenManager
	stop  func()
}

func vfNewRot() *vfRot {
	r := &vfRot{store: &vfStore{}, keys: &vfKeys{}}
	r.keys.install()
	r.store.fresh = func(string) any { return &tokenKeys{} }
	r.store.clone = func(dst, src any) {
		d, s := dst.(*tokenKeys), src.(*tokenKeys)
		d.Keys = nil
		for _, k := range s.Keys {
			d.Keys = append(d.Keys, &tokenKey{ID: k.ID, Type: k.Type, Key: append([]byte{}, k.Key...), CreationTime: k.CreationTime})
		}
	}
	r.store.install()
	return r
}

// start is what a starting proxy does.
func (r *vfRot) start() error {
	tm, err := New(&storage.Storage{}, nil, vfLog{})
	if err != nil {
		return err
	}
	r.tm = tm
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool)
	go func() {
		tm.KeyRotationLoop(ctx)
		close(done)
	}()
	r.stop = func() {
		cancel()
		<-done
	}
	time.Sleep(30 * time.Second) // what follows happens between rotations
	return nil
}

func (r *vfRot) durable() []*tokenKey {
	k, _ := r.store.files[tokenKeyFile].(*tokenKeys)
	if k == nil {
		return nil
	}
	return k.Keys
}

type vfTok struct {
	s       string
	expires time.Time
}

func vfKind(k *tokenKey) string { return fmt.Sprintf("%T", k.privKey) }

// issue creates a token and checks the key it is signed with.
func (r *vfRot) issue(alg string) vfTok {
	now := time.Now()
	exp := now.Add(vfLife)
	s, err := r.tm.CreateToken(jwt.MapClaims{"n": "x"}, alg)
	vsym.Assert(err == nil, "no usable signing key")
	tok, err := r.tm.ValidateToken(s)
	vsym.Assert(err == nil && tok.Valid, "a token is not verifiable right away")
	kid := tok.Header["kid"]
	durable := false
	for _, k := range r.durable() {
		if k.ID == kid {
			durable = true
		}
	}
	vsym.Assert(durable, "a key is used that is not in the store")
	var used *tokenKey
	for _, k := range r.tm.keys.Keys {
		if k.ID == kid {
			used = k
		}
	}
	if now.Sub(used.CreationTime) < 2*time.Hour {
		vsym.Reach("younger")
		for _, k := range r.tm.keys.Keys {
			vsym.Assert(vfKind(k) != vfKind(used) || !k.CreationTime.Before(used.CreationTime), "a new key is used although an older one is there")
		}
	}
	return vfTok{s, exp}
}

// check verifies tokens, in the middle of their life only if all is set.
func (r *vfRot) check(toks []vfTok, all bool) {
	now := time.Now()
	for _, t := range toks {
		if !all && now.Add(time.Hour).Before(t.expires) {
			continue
		}
		if now.After(t.expires) {
			vsym.Reach("expired")
			continue
		}
		vsym.Reach("alive")
		_, err := r.tm.ValidateToken(t.s)
		vsym.Assert(err == nil, "a token that has not expired is not verifiable any more")
	}
}

func (r *vfRot) retention() {
	now := time.Now()
	for _, k := range r.durable() {
		vsym.Assert(now.Sub(k.CreationTime) < 10*24*time.Hour, "a key is kept too long")
	}
}

// Operation, a downtime of any length, and operation again.
func VerifP16History() {
	r := vfNewRot()
	vsym.Assert(r.start() == nil, "start")
	h := []int{0, 30, 1, 26, 23, 200, 5}[vsym.Choose("hours", vsym.Param("H", 4))]
	alg := vsym.Pick("alg", "", "ES256", "RS256")
	toks := []vfTok{r.issue(alg)}
	for i := 0; i < h; i++ {
		time.Sleep(time.Hour)
		r.check(toks, i == 0)
		if i%4 == 3 || h < 10 {
			toks = append(toks, r.issue(alg))
		}
		if len(toks) > 6 {
			toks = toks[1:]
		}
	}
	toks = append(toks, r.issue(alg))
	toks = toks[max(0, len(toks)-2):]
	r.stop()
	d := vsym.Int("down", 0, 40*24*3600)
	vsym.Advance(d)
	vsym.Reach("restart")
	vsym.Assert(r.start() == nil, "restart")
	r.check(toks, true)
	toks = append(toks, r.issue(alg))
	for i := 0; i < 32; i++ {
		time.Sleep(time.Hour)
		r.check(toks, i < 3 || i == 10)
		if i < 4 {
			toks = append(toks, r.issue(alg))
		}
	}
	if h == 0 {
		// Everything made before the downtime goes away.
		n := len(r.durable())
		time.Sleep(9 * 24 * time.Hour)
		r.retention()
		vsym.Assert(len(r.durable()) <= 3*10, "keys pile up")
		r.issue(alg)
		_ = n
		vsym.Reach("dropped")
	}
	r.stop()
}

// Storage failures.
func VerifP16Failure() {
	r := vfNewRot()
	at := vsym.Choose("at", 4)
	n := 0
	op := vsym.Pick("op", "commit", "open", "create")
	r.store.fail = func(o, _ string) bool {
		if o != op {
			return false
		}
		n++
		return n-1 == at
	}
	toks := []vfTok{}
	err := r.start()
	if err != nil {
		vsym.Reach("failed")
		vsym.Assert(r.start() == nil, "start fails after a temporary failure")
	}
	vsym.Reach("ok")
	toks = append(toks, r.issue(""))
	for i := 0; i < 52; i++ {
		time.Sleep(time.Hour)
		r.check(toks, true)
		toks = append(toks, r.issue(""))
		if len(toks) > 3 {
			toks = toks[1:]
		}
		if i%25 == 2 {
			r.stop()
			if err := r.start(); err != nil {
				vsym.Assert(r.start() == nil, "start fails after a temporary failure")
			}
			vsym.Reach("restart")
			r.check(toks, true)
		}
	}
	r.stop()
}

// Rotation while tokens are made and checked.
func VerifP16Race() {
	vsym.DetectRaces()
	vsym.Explore(vsym.Param("P", 1))
	r := vfNewRot()
	vsym.Assert(r.start() == nil, "start")
	t := r.issue("")
	r.stop()
	vsym.Advance(30 * 3600)
	done := make(chan bool, 2)
	go func() {
		err := r.tm.rotateKeys()
		vsym.Assert(err == nil, "rotation fails")
		done <- true
	}()
	go func() {
		s, err := r.tm.CreateToken(jwt.MapClaims{"n": "y"}, "")
		vsym.Assert(err == nil, "no usable signing key")
		_, err = r.tm.ValidateToken(s)
		vsym.Assert(err == nil, "a token is not verifiable right away")
		done <- true
	}()
	<-done
	<-done
	vsym.Reach("rotated")
	_, err := r.tm.ValidateToken(t.s)
	vsym.Assert(err == nil, "a token is not verifiable any more")
}
