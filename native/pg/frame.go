package main

import (
	"bytes"
	"errors"
	"io"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/hired/gevulot/zzverif/x"
)

// chunks is a reader that delivers its data in given pieces, then fails.
type chunks struct {
	data  []byte
	sizes []int // sizes of the next pieces; afterwards everything
	err   error // at the end
	early bool  // the error comes together with the last bytes
	zero  bool  // an empty read before every piece
	z     bool
	used  int
}

func (r *chunks) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.zero && !r.z {
		r.z = true
		return 0, nil
	}
	r.z = false
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := len(r.data)
	if len(r.sizes) > 0 && r.sizes[0] < n {
		n = r.sizes[0]
	}
	k := copy(p[:min(len(p), n)], r.data)
	if len(r.sizes) > 0 {
		r.sizes[0] -= k
		if r.sizes[0] <= 0 {
			r.sizes = r.sizes[1:]
		}
	}
	r.data = r.data[k:]
	r.used += k
	if len(r.data) == 0 && r.early {
		return k, r.err
	}
	return k, nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var errBroken = errors.New("the network broke")

// readAll reads frames from r and compares them with the expected ones; then an error must follow.
func readAll(c *x.C, r *chunks, startup bool, want [][]byte, wellFormedEnd bool) {
	used := 0
	for i, f := range want {
		var got []byte
		var err error
		if startup {
			var sf pg.StartupFrame
			sf, err = pg.ReadStartupFrame(r)
			got = sf
		} else {
			var sf pg.StandardFrame
			sf, err = pg.ReadStandardFrame(r)
			got = sf
		}
		c.Step(1)
		if err != nil {
			if i == len(want)-1 && len(r.data) == 0 && r.early && r.err == errBroken {
				// the network fails in the very read that completes the frame: it may count as failing inside of it
				return
			}
			c.Failf("frame %d of %d bytes was not recovered: %v", i, len(f), err)
		}
		if !bytes.Equal(got, f) {
			c.Failf("frame %d: %s instead of %s", i, short(got), short(f))
		}
		used += len(f)
		if r.used != used {
			c.Failf("after frame %d, %d bytes were consumed instead of %d", i, r.used, used)
		}
	}
	var f pg.Frame
	var err error
	if startup {
		var sf pg.StartupFrame
		sf, err = pg.ReadStartupFrame(r)
		f = sf
	} else {
		var sf pg.StandardFrame
		sf, err = pg.ReadStandardFrame(r)
		f = sf
	}
	c.Step(1)
	if err == nil {
		c.Failf("an incomplete or malformed frame was returned: %s", short(f.Bytes()))
	}
	if r.err == errBroken && err != errBroken && !errors.Is(err, errBroken) && wellFormedEnd {
		c.Failf("the network failed with %q but the reader says %v", errBroken, err)
	}
}

func (r *chunks) end(c *x.C) {
	r.err = []error{io.EOF, errBroken}[c.Choose(2, "end")]
	r.early = c.Bool("error with the last bytes")
}

// refFrame2 is a frame with the given type byte, even if that is zero.
func refFrame2(t byte, body []byte) []byte {
	n := len(body) + 4
	return append([]byte{t, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, body...)
}

func init() {
	x.Add(&x.Space{Name: "frame-splits", Props: []string{"W04"}, What: "up to 3 frames of up to 3 bytes, cut anywhere, delivered in every possible division into reads; EOF or failure at the end, alone or with the last bytes",
		Body: func(c *x.C) {
			startup := c.Bool("startup")
			var frames [][]byte
			var all []byte
			n := 1 + c.Choose(3, "frames")
			for i := 0; i < n; i++ {
				t := byte('A' + i)
				if startup {
					t = 0
				}
				f := refFrame(t, []byte("xyz")[:c.Choose(4, "size")])
				frames = append(frames, f)
				all = append(all, f...)
			}
			cut := c.Choose(len(frames[n-1]), "missing bytes")
			if cut > 0 {
				frames = frames[:n-1]
				all = all[:len(all)-cut]
			}
			r := &chunks{data: all}
			r.end(c)
			r.zero = c.Bool("empty reads")
			// where reads end: choose every subset of the boundaries near a window, and all of them in turn
			if len(all) <= c.N(9, 13) {
				last := 0
				for i := 1; i < len(all); i++ {
					if c.Bool("boundary") {
						r.sizes = append(r.sizes, i-last)
						last = i
					}
				}
			} else {
				// two or three boundaries anywhere, or one byte at a time
				k := c.Choose(len(all), "boundary")
				if k == 0 {
					for i := 0; i < len(all); i++ {
						r.sizes = append(r.sizes, 1)
					}
				} else {
					r.sizes = append(r.sizes, k)
					if l := c.Choose(len(all)-k+1, "second boundary"); l > 0 {
						r.sizes = append(r.sizes, l)
					}
				}
			}
			if c.Sampling() {
				c.Note("%d frames, %s, reads %v, end %v", len(frames), short(all), r.sizes, r.err)
			}
			readAll(c, r, startup, frames, cut > 0 || !r.early)
		}, Depth: 4})
	x.Add(&x.Space{Name: "frame-sizes", Props: []string{"W04"}, What: "two frames of sizes around buffer boundaries, up to 1 (8) MiB, with the stream split at every position of interest",
		Body: func(c *x.C) {
			startup := c.Bool("startup")
			sizes := []int{0, 1, 4, 250, 251, 252, 253, 254, 255, 256, 257, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 1019, 1020, 1023, 1024, 1025, 4095, 4096, 32767, 32768, 65531, 65535, 65536, 70000, 1 << 20}
			if c.Thorough() {
				sizes = append(sizes, 8<<20)
			}
			a := sizes[c.Choose(len(sizes), "size")]
			b := sizes[c.Choose(c.N(6, len(sizes)-1), "size of the next")]
			t := byte('d')
			if startup {
				t = 0
			}
			body := bytes.Repeat([]byte("0123456789abcdefghijklmnopqrstuvwxyz-"), (a+b)/37+2)
			f, g := refFrame(t, body[:a]), refFrame(t, body[a:a+b])
			all := append(append([]byte(nil), f...), g...)
			cut := c.PickInt("missing bytes", 0, 1, 2)
			frames := [][]byte{f, g}
			if cut > 0 {
				frames = frames[:1]
				all = all[:len(all)-cut]
			}
			r := &chunks{data: all}
			r.end(c)
			p := c.Choose(8, "split")
			r.sizes = [][]int{nil, {1, 1, 1, 1, 1}, {3, 3, 3}, {5}, {len(f) - 1, 2}, {len(f) + 3}, {512, 512}, {256, 1, 511}}[p]
			c.Note("sizes %d and %d, missing %d, split %v", a, b, cut, r.sizes)
			readAll(c, r, startup, frames, cut > 0 || !r.early)
		}, Depth: 3})
	x.Add(&x.Space{Name: "frame-types", Props: []string{"W04"}, What: "two frames of any type byte and of 0 to 70000 bytes, in 3 divisions into reads, complete or cut",
		Body: func(c *x.C) {
			t := byte(c.Choose(256, "type"))
			sizes := []int{0, 1, 4, 300, 9990, 10001, 30001, 70000}
			a, b := sizes[c.Choose(len(sizes), "size")], sizes[c.Choose(3, "size of the next")]
			f, g := refFrame2(t, bytes.Repeat([]byte{t ^ 0x5a}, a)), refFrame2(t, bytes.Repeat([]byte{t}, b))
			frames := [][]byte{f, g}
			all := append(append([]byte(nil), f...), g...)
			if cut := c.PickInt("missing bytes", 0, 1, 4); cut > 0 {
				frames = frames[:1]
				all = all[:len(all)-cut]
			}
			r := &chunks{data: all, err: io.EOF}
			r.sizes = [][]int{nil, {1, 1, 1, 1, 1, 1}, {len(f) - 1, 2}}[c.Choose(3, "split")]
			c.Note("type %#x, sizes %d and %d", t, a, b)
			readAll(c, r, false, frames, true)
		}, Depth: 2})
	x.Add(&x.Space{Name: "frame-lengths", Props: []string{"W04"}, What: "headers with every declared length from -8 to 40 and extreme ones, followed by 0 to 40 bytes, and after a good frame",
		Body: func(c *x.C) {
			startup := c.Bool("startup")
			lens := []int{-1 << 31, -1<<31 + 1, -1<<31 + 3, -1<<31 + 4, -1<<31 + 5, 1<<31 - 1, 1<<31 - 4, 1 << 30, 1 << 24}
			for i := -8; i <= 40; i++ {
				lens = append(lens, i)
			}
			l := lens[c.Choose(len(lens), "declared length")]
			k := c.Choose(41, "bytes that follow")
			var b w
			t := byte('Q')
			if startup {
				t = 0
			}
			var frames [][]byte
			if c.Bool("after a good frame") {
				frames = append(frames, refFrame(t, []byte("good")))
				b.Write(frames[0])
			}
			if !startup {
				b.WriteByte('Q')
			}
			b.i32(int32(l))
			h := b.Len()
			b.Write(bytes.Repeat([]byte{'x'}, k))
			r := &chunks{data: b.Bytes()}
			r.end(c)
			c.Note("declared %d, %d bytes follow", l, k)
			if l >= 4 && l-4 <= k {
				start := 0
				if len(frames) > 0 {
					start = len(frames[0])
				}
				frames = append(frames, append([]byte(nil), b.Bytes()[start:h+l-4]...))
				// what follows begins with 'x' bytes: a frame with a huge length, or nothing
			}
			readAll(c, r, startup, frames, false)
		}, Depth: 3})
}
