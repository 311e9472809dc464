//verif:hook github.com/c2FmZQ/storage (*Storage).OpenForUpdate
//verif:hook github.com/c2FmZQ/storage (*Storage).ReadDataFile
//verif:hook github.com/c2FmZQ/storage (*Storage).SaveDataFile
//verif:hook github.com/c2FmZQ/storage (*Storage).CreateEmptyFile
//verif:assume the encrypted store is ideal: a successful save is durable and atomic, a failed one leaves the file as it was; updates of a file exclude each other
package common

import (
	"encoding/json"
	"errors"
	"os"
	"sync"

	"github.com/c2FmZQ/storage"
)

var errVFStore = errors.New("storage failure")

// vfStore replaces the storage library. clone copies the durable part of *src
// into *dst; by default everything that JSON keeps.
type vfStore struct {
	mu    sync.Mutex
	locks map[string]*sync.Mutex
	files map[string]any
	fresh func(file string) any // allocates an object of the file's type
	clone func(dst, src any)
	// fail says whether an operation fails: open, commit, read, save.
	fail  func(op, file string) bool
	saved int
}

func (s *vfStore) lock(file string) *sync.Mutex {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.locks[file]
	if l == nil {
		l = new(sync.Mutex)
		s.locks[file] = l
	}
	return l
}

func (s *vfStore) fails(op, file string) bool { return s.fail != nil && s.fail(op, file) }

func (s *vfStore) put(file string, obj any) {
	var o any
	if s.clone == nil {
		b, err := json.Marshal(obj)
		if err != nil {
			panic(err)
		}
		o = b
	} else {
		o = s.fresh(file)
		s.clone(o, obj)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.files[file] = o
	s.saved++
}

func (s *vfStore) get(file string, obj any) error {
	s.mu.Lock()
	o, ok := s.files[file]
	s.mu.Unlock()
	if !ok {
		return os.ErrNotExist
	}
	if s.clone == nil {
		return json.Unmarshal(o.([]byte), obj)
	}
	s.clone(obj, o)
	return nil
}

func (s *vfStore) install() {
	s.files = map[string]any{}
	s.locks = map[string]*sync.Mutex{}
	storage.VerifHook_Storage_CreateEmptyFile = func(_ *storage.Storage, file string, obj any) error {
		s.mu.Lock()
		_, ok := s.files[file]
		s.mu.Unlock()
		if ok {
			return os.ErrExist
		}
		if s.fails("create", file) {
			return errVFStore
		}
		s.put(file, obj)
		return nil
	}
	storage.VerifHook_Storage_ReadDataFile = func(_ *storage.Storage, file string, obj any) error {
		if s.fails("read", file) {
			return errVFStore
		}
		return s.get(file, obj)
	}
	storage.VerifHook_Storage_SaveDataFile = func(_ *storage.Storage, file string, obj any) error {
		if s.fails("save", file) {
			return errVFStore
		}
		s.put(file, obj)
		return nil
	}
	storage.VerifHook_Storage_OpenForUpdate = func(_ *storage.Storage, file string, obj any) (func(bool, *error) error, error) {
		l := s.lock(file)
		l.Lock()
		err := error(nil)
		if s.fails("open", file) {
			err = errVFStore
		} else {
			err = s.get(file, obj)
		}
		if err != nil {
			l.Unlock()
			return nil, err
		}
		var called, committed bool
		return func(commit bool, errp *error) (retErr error) {
			if called {
				if committed {
					return storage.ErrAlreadyCommitted
				}
				return storage.ErrAlreadyRolledBack
			}
			called = true
			if errp == nil || *errp != nil {
				errp = &retErr
			}
			if commit {
				if s.fails("commit", file) {
					*errp = errVFStore
				} else {
					s.put(file, obj)
					committed = true
				}
			}
			l.Unlock()
			if !commit && *errp == nil {
				*errp = storage.ErrRolledBack
			}
			return *errp
		}, nil
	}
}
