// Package store: the per-connection key/value store.
package store

import (
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/verifh/hx"
	"github.com/kataras/neffos/verifh/nd"
)

var keys = [...]string{"", "a", "b"}

// model of one entry
type cell struct {
	set   bool
	isInt bool
	n     int
}

func check(c *neffos.Conn, m *[3]cell, k int) {
	v := c.Get(keys[k])
	if !m[k].set {
		nd.Assert(v == nil, "Get of a key never set is not nil")
		return
	}
	n, ok := v.(int)
	nd.Assert(ok == m[k].isInt, "Get returned a value of another type")
	if ok {
		nd.Assert(n == m[k].n, "Get returned another value than the last one stored")
	} else {
		s, ok := v.(string)
		nd.Assert(ok && s == "text", "Get returned another value than the last one stored")
	}
}

// CheckSequential: any sequence of Set/Get/Increment/Decrement agrees with a map.
func CheckSequential() {
	_, c, _ := hx.ServerConn(neffos.Namespaces{}, "id")
	var m [3]cell
	steps := nd.Pick(3, 4)
	for i := 0; i < steps; i++ {
		k := nd.Choose("key", len(keys))
		switch nd.Choose("op", 4) {
		case 0:
			n := nd.Int("val", -1000000, 1000000)
			c.Set(keys[k], n)
			m[k] = cell{true, true, n}
		case 1:
			c.Set(keys[k], "text")
			m[k] = cell{true, false, 0}
		case 2:
			want := 1
			if m[k].set && m[k].isInt {
				want = m[k].n + 1
			}
			nd.Assert(c.Increment(keys[k]) == want, "Increment result")
			m[k] = cell{true, true, want}
		case 3:
			want := -1
			if m[k].set && m[k].isInt {
				want = m[k].n - 1
			}
			nd.Assert(c.Decrement(keys[k]) == want, "Decrement result")
			m[k] = cell{true, true, want}
		}
	}
	for k := range keys {
		check(c, &m, k)
	}
	nd.Reach("end")
}

// CheckConcurrent: concurrent updates are neither lost nor doubled.
func CheckConcurrent() {
	_, c, _ := hx.ServerConn(neffos.Namespaces{}, "id")
	start := nd.Int("start", -1000, 1000)
	preset := nd.Bool("preset")
	if preset {
		c.Set("k", start)
	} else {
		start = 0
	}
	var op [3]bool
	var res [3]int
	n := nd.Pick(2, 3)
	for i := 0; i < n; i++ {
		op[i] = nd.Bool("inc")
	}
	nd.Delays(nd.Pick(2, 3))
	for i := 0; i < n; i++ {
		nd.Spawn(func() {
			if op[i] {
				res[i] = c.Increment("k")
			} else {
				res[i] = c.Decrement("k")
			}
		})
	}
	hx.Settle()
	want := start
	allInc := true
	for i := 0; i < n; i++ {
		if op[i] {
			want++
		} else {
			want--
			allInc = false
		}
	}
	v, _ := c.Get("k").(int)
	nd.Assert(v == want, "an Increment or Decrement was lost")
	if allInc {
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				nd.Assert(res[i] != res[j], "two Increments returned the same value")
			}
		}
	}
	nd.Reach("end")
}

// CheckKeys: concurrent updates of any keys, from any store: each of them takes effect, as if one after the other.
func CheckKeys() {
	_, c, _ := hx.ServerConn(neffos.Namespaces{}, "id")
	if nd.Bool("used") {
		c.Set("other", 1)
	}
	n := nd.Pick(2, 3)
	var key, op, val [3]int
	names := [...]string{"a", "b", "d"}
	for i := 0; i < n; i++ {
		key[i] = nd.Choose("key", i+1) // as far as they differ
		op[i] = nd.Choose("op", 4)
		val[i] = nd.Int("val", 10, 1000)
	}
	var got [3]interface{}
	nd.Delays(nd.Pick(3, 3))
	for i := 0; i < n; i++ {
		nd.Spawn(func() {
			k := names[key[i]]
			switch op[i] {
			case 0:
				c.Set(k, val[i])
			case 1:
				got[i] = c.Increment(k)
			case 2:
				got[i] = c.Decrement(k)
			case 3:
				got[i] = c.Get(k)
			}
		})
	}
	hx.Settle()
	// some order of them explains the results.
	explained := false
	orders := [...][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	for _, o := range orders {
		var at [3]int
		var set [3]bool
		ok := true
		for _, i := range o {
			if i >= n {
				continue
			}
			k := key[i]
			switch op[i] {
			case 0:
				at[k], set[k] = val[i], true
			case 1, 2:
				at[k]++
				if op[i] == 2 {
					at[k] -= 2
				}
				set[k] = true
				v, isInt := got[i].(int)
				ok = nd.And(ok, isInt && v == at[k])
			case 3:
				v, isInt := got[i].(int)
				if set[k] {
					ok = nd.And(ok, isInt && v == at[k])
				} else {
					ok = nd.And(ok, got[i] == nil)
				}
			}
		}
		for k := 0; k < n; k++ {
			v, isInt := c.Get(names[k]).(int)
			ok = nd.And(ok, isInt == set[k])
			if set[k] {
				ok = nd.And(ok, v == at[k])
			}
		}
		explained = nd.Or(explained, ok)
	}
	nd.Assert(explained, "no order of the updates explains the store")
	nd.Reach("end")
}
