package vs

// Ghost is state of the harness that several threads share. Its accesses happen together with the preceding step of
// the thread (they are no scheduling points) but their order is part of the explored space, so that oracles may talk
// about real-time order between threads. They synchronise nothing as far as race detection is concerned.
type Ghost[T any] struct {
	v T
	h uint64
}

// Set changes the value.
func (g *Ghost[T]) Set(v T) { g.Update(func(T) T { return v }) }

// Get reads the value.
func (g *Ghost[T]) Get() T {
	if x := X; x != nil && !x.aborting {
		x.Mix(x.cur, 82, g.h)
	}
	return g.v
}

// Update changes the value by f.
func (g *Ghost[T]) Update(f func(T) T) T {
	if x := X; x != nil && !x.aborting {
		x.Mix(x.cur, 81, g.h)
		g.h = x.cur.h
	}
	g.v = f(g.v)
	return g.v
}

// Final reads the value after the execution.
func (g *Ghost[T]) Final() T { return g.v }
