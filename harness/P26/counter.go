//verif:pkg proxy/internal/counter
//verif:unit name=rate entry=VerifP26Rate share=3 reach=some,none,later synctest q.OPS=3 t.OPS=4
//verif:assume the clock only moves forward, in steps of whole and half seconds of 0 to 200 s
package counter

import (
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/vsym"
)

type vfEvent struct {
	at    time.Time
	delta int64
}

// A counter is the sum of what was added to it. Its rate over a period is what
// was added in the last steps of that period, over their duration; before the
// counter is as old as the period, over its age.
func VerifP26Rate() {
	born := time.Now().Truncate(time.Second)
	c := New(time.Minute, time.Second)
	var log []vfEvent
	var total int64
	waits := []time.Duration{0, 500 * time.Millisecond, time.Second, 2 * time.Second, 29 * time.Second, 59 * time.Second, 60 * time.Second, 61 * time.Second, 62 * time.Second, 200 * time.Second}
	for i := 0; i < vsym.Param("OPS", 3); i++ {
		d := vsym.Int64("delta")
		vsym.Assume(d >= 0 && d < 1<<40)
		total += d
		vsym.Assert(c.Incr(d) == total, "value after an increment")
		log = append(log, vfEvent{time.Now().Truncate(time.Second), d})
		if w := waits[vsym.Choose("wait", len(waits))]; w > 0 {
			vsym.Reach("later")
			time.Sleep(w)
		}
		if vsym.Bool("look") {
			vfCheckRate(c, born, log, total)
		}
	}
	vfCheckRate(c, born, log, total)
}

func vfCheckRate(c *Counter, born time.Time, log []vfEvent, total int64) {
	vsym.Assert(c.Value() == total, "the value is not the sum of the increments")
	now := time.Now().Truncate(time.Second)
	for _, period := range []int64{1, 30, 60} {
		r := c.Rate(time.Duration(period) * time.Second)
		steps := min(period, int64(now.Sub(born)/time.Second))
		if steps == 0 {
			vsym.Reach("none")
			vsym.Assert(r == 0, "rate without any time elapsed")
			continue
		}
		var sum int64
		for _, e := range log {
			if int64(now.Sub(e.at)/time.Second) < steps {
				sum += e.delta
			}
		}
		vsym.Reach("some")
		vsym.Assert(r == float64(sum)/float64(steps), "the rate is not what was added in the period")
	}
}
