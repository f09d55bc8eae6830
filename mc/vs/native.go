package vs

import "reflect"

func (r *RC[T]) nativeCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.nat)}
}

func (s *SC[T]) nativeCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.nat), Send: reflect.ValueOf(&s.v).Elem()}
}

func (r *RC[T]) got(v reflect.Value, ok bool) {
	if ok {
		reflect.ValueOf(&r.Val).Elem().Set(v)
	}
	r.OK = ok
}

func (s *SC[T]) got(reflect.Value, bool) {}

type nativeCase interface {
	nativeCase() reflect.SelectCase
	got(reflect.Value, bool)
}

// nativeSelect is used outside of executions.
func nativeSelect(hasDefault bool, cases []selCase) int {
	var rc []reflect.SelectCase
	for _, c := range cases {
		rc = append(rc, c.(nativeCase).nativeCase())
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return -1
	}
	cases[i].(nativeCase).got(v, ok)
	return i
}
