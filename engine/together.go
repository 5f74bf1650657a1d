package engine

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// track remembers the memory that one of two concurrent computations uses:
// slots (*V) and maps (*MapV). What is accessed under a lock or atomically is
// left out.
type track struct {
	reads, writes map[any]struct{}
}

func newTrack() *track { return &track{map[any]struct{}{}, map[any]struct{}{}} }

func (t *track) wrote(p any) { t.writes[p] = struct{}{} }
func (t *track) read(p any)  { t.reads[p] = struct{}{} }

func (t *track) readAll(p *V) {
	switch v := (*p).(type) {
	case structure:
		for i := range v {
			t.readAll(&v[i])
		}
	case array:
		for i := range v {
			t.readAll(&v[i])
		}
	default:
		t.reads[p] = struct{}{}
	}
}

func locked(d int) intrinsic {
	return func(fr *frame, _ *ssa.Function, a []V) V {
		fr.w.held += d
		return nil
	}
}

func (w *Worker) setAtomic(p *V, v V) {
	w.held++
	w.set(p, v)
	w.held--
}

// together runs f and g, each from the present state, and checks that neither
// writes memory that the other one uses. When that holds every interleaving of
// the two has the same effect and is free of data races.
func (w *Worker) together(fr *frame, id string, f, g V) V {
	if w.track != nil {
		panic(unsupported("Together inside Together"))
	}
	defer func() { w.track = nil }()
	var res [2]V
	var ts [2]*track
	for i, fn := range [2]V{f, g} {
		mark := len(w.undo)
		w.epoch++ // maps are saved anew
		ts[i] = newTrack()
		w.track = ts[i]
		res[i] = w.call(fr, fn, nil, nil)
		w.track = nil
		if i == 0 {
			w.rollback(mark)
		}
	}
	n := 0
	for i := range ts {
		o := ts[1-i]
		for p := range ts[i].writes {
			_, r := o.reads[p]
			_, wr := o.writes[p]
			if r || wr {
				n++
			}
		}
	}
	ok := w.c.True
	if n > 0 {
		ok = w.c.False
	}
	w.check(id, ok, func(map[*Term]uint64) string {
		return fmt.Sprintf("%d places in memory are written by one of two concurrent computations and used by the other", n)
	})
	return tuple{res[0], res[1]}
}
