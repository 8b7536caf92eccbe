package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/analyzer/engine"
)

// hold is how and since which event a lock is held.
type hold struct {
	write bool
	since int
}

type lockErr struct {
	ev  *evnt
	why string
}

// locking is what a path does with locks: those held before each event, and
// what is wrong with how they are taken and released.
type locking struct {
	held []map[*term]hold // by event sequence number
	end  map[*term]hold
	errs []lockErr
}

// lockOf is the lock a call of the sync package works on, in the form of the
// address of the mutex: the L of a condition variable is its owner's mutex.
func (c *Ctx) lockOf(t *term) *term {
	t = unbox(t)
	if t == nil {
		return nil
	}
	if b, ok := fieldLoad(t, "L"); ok {
		if own := condOwner(b); own != nil {
			return &engine.Term{K: engine.KUnknown, Aux: "L", Args: []*term{own}}
		}
	}
	return t
}

// condOwner is the object a condition variable belongs to.
func condOwner(cv *term) *term {
	cv = unbox(cv)
	if cv == nil {
		return nil
	}
	if cv.K == engine.KLoad && cv.Args[0].K == engine.KFieldAddr {
		return cv.Args[0].Args[0]
	}
	if cv.K == engine.KFieldAddr {
		return cv.Args[0]
	}
	return nil
}

// mutexField: the field of a struct type that is a lock.
func mutexField(t types.Type) []*types.Var {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		if isMutex(st.Field(i).Type()) {
			out = append(out, st.Field(i))
		}
	}
	return out
}

func isMutex(t types.Type) bool {
	return in(strings.TrimPrefix(types.TypeString(t, nil), "*"), "sync.Mutex", "sync.RWMutex")
}

// lockset follows the locks along a path.
func (c *Ctx) lockset(p *path) *locking {
	l := &locking{}
	cur := map[*term]hold{}
	set := func(t *term, h hold) {
		n := map[*term]hold{}
		for k, v := range cur {
			n[k] = v
		}
		n[t] = h
		cur = n
	}
	del := func(t *term) {
		n := map[*term]hold{}
		for k, v := range cur {
			if k != t {
				n[k] = v
			}
		}
		cur = n
	}
	bad := func(ev *evnt, why string) { l.errs = append(l.errs, lockErr{ev, why}) }
	for _, ev := range p.Events {
		l.held = append(l.held, cur)
		if ev.Kind != engine.EvCall || len(ev.Args) == 0 || !strings.Contains(ev.Callee, "sync.") {
			continue
		}
		n := sn(ev.Callee)
		t := unbox(ev.Args[0])
		switch n {
		case "sync.Locker.Lock", "sync.Locker.Unlock":
			// The lock of a condition variable: its owner's mutex.
			if b, ok := fieldLoad(t, "L"); ok {
				if own := condOwner(b); own != nil {
					if fs := mutexField(own.T); len(fs) == 1 {
						t = p.R.TT.FieldAddr(own, fs[0])
					}
				}
			}
			n = "sync.Mutex." + n[strings.LastIndexByte(n, '.')+1:]
		}
		switch n {
		case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock":
			if _, held := cur[t]; held {
				bad(ev, "takes a lock it already holds")
			}
			set(t, hold{n != "sync.RWMutex.RLock", ev.Seq})
		case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
			h, held := cur[t]
			if !held || !h.write {
				bad(ev, "releases a lock it does not hold")
			}
			del(t)
		case "sync.RWMutex.RUnlock":
			h, held := cur[t]
			if !held || h.write {
				bad(ev, "releases a read lock it does not hold")
			}
			del(t)
		case "sync.Mutex.TryLock", "sync.RWMutex.TryLock", "sync.RWMutex.TryRLock":
			bad(ev, "takes a lock that it may not get")
		case "sync.Cond.Wait":
			own := condOwner(ev.Args[0])
			ok := false
			for k, h := range cur {
				if k.K == engine.KFieldAddr && k.Args[0] == own && h.write {
					ok = true
					set(k, hold{true, ev.Seq})
				}
			}
			if !ok {
				bad(ev, "waits without holding the lock of the condition")
			}
		}
	}
	l.end = cur
	return l
}

// at is what is held when ev happens.
func (l *locking) at(ev *evnt) map[*term]hold { return l.held[ev.Seq] }

// guards: the hold of the lock that belongs to the object base.
func (l *locking) guards(ev *evnt, base *term) (hold, bool) {
	for k, h := range l.at(ev) {
		if k.K == engine.KFieldAddr && k.Args[0] == base && isMutex(k.Var.Type()) {
			return h, true
		}
		if k.K == engine.KLoad && k.Args[0].K == engine.KFieldAddr && k.Args[0].Args[0] == base {
			return h, true
		}
	}
	return hold{}, false
}

// mapOwner is the object that a map read from a field belongs to.
func mapOwner(m *term) *term {
	if m == nil {
		return nil
	}
	if m.K == engine.KLoad && m.Args[0].K == engine.KFieldAddr {
		return m.Args[0].Args[0]
	}
	if m.K == engine.KField {
		return m.Args[0]
	}
	return nil
}

var noPos = token.NoPos
