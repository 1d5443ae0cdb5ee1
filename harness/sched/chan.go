package sched

// Channel operations of instrumented code.

type pend struct {
	v    any
	done bool
}

var (
	closed  map[any]bool
	pending map[any][]*pend
)

func Go1[A any](f func(A), a A)                       { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)            { Go(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C) { Go(func() { f(a, b, c) }) }
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) {
	Go(func() { f(a, b, c, d) })
}

// Close closes c.
func Close[T any](c chan T) {
	Point()
	close(c)
	if closed == nil {
		closed = map[any]bool{}
	}
	closed[any((<-chan T)(c))] = true
}

// IsClosed reports whether Close was called on c.
func IsClosed[T any](c <-chan T) bool { return closed[any(c)] }

func Recv2[T any](c <-chan T) (T, bool) {
	Await(func() bool { return len(c) > 0 || closed[any(c)] || len(pending[any(c)]) > 0 })
	if len(c) > 0 || closed[any(c)] {
		v, ok := <-c
		return v, ok
	}
	q := pending[any(c)]
	p := q[0]
	pending[any(c)] = q[1:]
	p.done = true
	return p.v.(T), true
}

func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Send[T any](c chan T, v T) {
	k := any((<-chan T)(c))
	if cap(c) > 0 {
		Await(func() bool { return len(c) < cap(c) || closed[k] })
		c <- v
		return
	}
	Point()
	if closed[k] {
		c <- v // panics
	}
	p := &pend{v: v}
	if pending == nil {
		pending = map[any][]*pend{}
	}
	pending[k] = append(pending[k], p)
	Await(func() bool { return p.done })
}

// TrySend sends v on a buffered channel if there is room.
func TrySend[T any](c chan<- T, v T) bool {
	if len(c) < cap(c) {
		c <- v
		return true
	}
	return false
}
