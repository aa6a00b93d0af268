// Drives the Go package: one command per line on stdin, one event per command on stdout.
// Every event lists all live objects whose value changed, and the arguments which the call changed (u).
// argv[1]: alarm in seconds.  GODRV=each: collect after every command; during: collect while the
// library executes (the library is instrumented, see gohook.c); count: for the rep command.
package main

// #include "gohook.h"
import "C"

import (
	"bufio"
	"bytes"
	"ecgo"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"
)

type obj struct { // exactly one is set
	fe *ecgo.FieldElement
	cv *ecgo.Curve
	pt *ecgo.Point
	sc *ecgo.ECDSASignatureScheme
	sg *ecgo.ECDSASignature
	ct *ecgo.ECElgamalCiphertext
	on string // key of the curve it belongs to
	ch string // how to make a neutral point of that curve again
	sz int    // digest size
}

func (o obj) kind() string {
	switch {
	case o.fe != nil:
		return "fe"
	case o.cv != nil:
		return "cv"
	case o.pt != nil:
		return "pt"
	case o.sc != nil:
		return "sc"
	case o.sg != nil:
		return "sg"
	case o.ct != nil:
		return "ct"
	}
	return "none"
}

var H = map[string]obj{}
var order []string
var last = map[string][]string{}
var ckeys, mkeys = map[string]string{}, map[string]string{}
var shadow = map[string]*ecgo.Curve{} // a curve object of our own for every key
var newk [][]string

func hx(v *big.Int) string { return v.Text(16) }
func mkey(p *big.Int) string {
	s := hx(p)
	if mkeys[s] == "" {
		mkeys[s] = fmt.Sprintf("M%d", len(mkeys))
		newk = append(newk, []string{mkeys[s], "m", s})
	}
	return mkeys[s]
}

var coefs = map[int][3]string{ecgo.EQTypeShortWeierstrass: {"ws", "ws_a", "ws_b"}, ecgo.EQTypeEdwards: {"ed", "ed_c", "ed_d"},
	ecgo.EQTypeMontgomery: {"mo", "mo_B", "mo_A"}, ecgo.EQTypeTwistedEdwards: {"te", "te_a", "te_d"}}

func ckey(c *ecgo.Curve) string {
	f := coefs[c.Type()]
	l := []string{f[0]}
	v := []*big.Int{}
	for _, a := range []string{"p", f[1], f[2], "n", "h", "gx", "gy"} {
		x := c.GetAttr(a)
		v = append(v, x)
		l = append(l, hx(x))
	}
	b := c.GetAttr("bits")
	l = append(l, b.String())
	s := strings.Join(l, " ")
	if ckeys[s] == "" {
		k := fmt.Sprintf("K%d", len(ckeys))
		ckeys[s] = k
		newk = append(newk, append([]string{k}, l...))
		shadow[k] = build(f[0], v[0], v[1], v[2], v[3], v[4], v[5], v[6], uint(b.Uint64()))
	}
	return ckeys[s]
}
func build(f string, p, a, b, n, h, x, y *big.Int, bits uint) *ecgo.Curve {
	switch f {
	case "ws":
		return ecgo.ShortWeierstrassCurve(p, a, b, n, h, x, y, bits)
	case "ed":
		return ecgo.EdwardsCurve(p, a, b, n, h, x, y, bits)
	case "mo":
		return ecgo.MontgomeryCurve(p, a, b, n, h, x, y, bits)
	}
	return ecgo.TwistedEdwardsCurve(p, a, b, n, h, x, y, bits)
}
func ptof(p *ecgo.Point, key string) []string {
	t := shadow[key].Type()
	if (t == ecgo.EQTypeShortWeierstrass || t == ecgo.EQTypeMontgomery) && p.IsNeutral() {
		return []string{key, "1", "0", "0"}
	}
	x, y := p.Affine()
	return []string{key, "0", hx(x), hx(y)}
}

// the point is still on the curve it belongs to (arithmetic with another curve's points is refused)
func belongs(p *ecgo.Point, key string) bool {
	o := ecgo.NewPointNeutral(shadow[key])
	return ecgo.NewPointNeutral(shadow[key]).Add(o, p) != nil
}
func observe(o obj) []string {
	switch o.kind() {
	case "fe":
		return []string{"fe", mkey(o.fe.Order()), hx(o.fe.AsInt())}
	case "cv":
		return []string{"cv", ckey(o.cv)}
	case "pt":
		if !belongs(o.pt, o.on) {
			return []string{"un"}
		}
		return append([]string{"pt"}, ptof(o.pt, o.on)...)
	case "sc":
		return []string{"sc", o.on, strconv.Itoa(o.sz)}
	case "sg":
		b := o.sg.AsBytes()
		w := len(b) / 2
		return []string{"sg", o.on, strconv.Itoa(o.sz), hx(new(big.Int).SetBytes(b[:w])), hx(new(big.Int).SetBytes(b[w:]))}
	case "ct":
		c, d := o.ct.C(), o.ct.D()
		if !belongs(c, o.on) || !belongs(d, o.on) {
			return []string{"un"}
		}
		return append(append([]string{"ct"}, ptof(c, o.on)...), ptof(d, o.on)...)
	}
	return []string{"un"}
}

// ---- a hash whose digest is the message repeated
type cyc struct {
	sz  int
	buf []byte
}

func (h *cyc) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *cyc) Reset()                      { h.buf = h.buf[:0] }
func (h *cyc) Size() int                   { return h.sz }
func (h *cyc) BlockSize() int              { return 1 }
func (h *cyc) Sum(b []byte) []byte {
	for i := 0; i < h.sz; i++ {
		if len(h.buf) == 0 {
			b = append(b, 0)
		} else {
			b = append(b, h.buf[i%len(h.buf)])
		}
	}
	return b
}

var hashes = map[int]*cyc{} // shared by all schemes of a digest size

// ---- operands
type arg struct {
	h  string
	i  *big.Int
	b  []byte
	s  string
	tg string
}
type missing string

func operand(t string) arg {
	if k := strings.IndexByte(t, ':'); k >= 0 {
		v := t[k+1:]
		switch t[:k] {
		case "i", "u":
			z, ok := new(big.Int).SetString(v, 16)
			if !ok {
				panic("bad integer " + t)
			}
			return arg{i: z, tg: t[:k]}
		case "b", "t":
			var x []byte
			if v != "-" {
				x, _ = hex.DecodeString(v)
			}
			if t[:k] == "t" {
				return arg{s: string(x), tg: "t"}
			}
			if x == nil {
				x = []byte{}
			}
			return arg{b: x, tg: "b"}
		case "H":
			return arg{s: v, tg: "H"}
		case "w":
			return arg{s: v, tg: "w"}
		}
	}
	if _, ok := H[t]; !ok {
		panic(missing(t))
	}
	return arg{h: t, tg: "h"}
}

type result struct {
	r   []string
	new obj
	ok  bool
}

func val(s ...string) result { return result{r: append([]string{"ok"}, s...)} }
func boolean(b bool) result {
	if b {
		return val("1")
	}
	return val("0")
}
func integer(vs ...*big.Int) result {
	l := []string{}
	for _, v := range vs {
		if v == nil {
			return result{r: []string{"exc", "nil"}}
		}
		l = append(l, hx(v))
		v.SetInt64(77) // what the caller does with its result is its business
	}
	return val(l...)
}
func octets(b []byte) result {
	s := hex.EncodeToString(b)
	for i := range b {
		b[i] ^= 0xa5
	}
	return val(s)
}
func made(o obj) result {
	if o.kind() == "none" {
		return result{r: []string{"exc", "nil"}}
	}
	return result{r: []string{"ok"}, new: o, ok: true}
}

var none = result{r: []string{"none"}}

// the operations: receivers are existing objects where there are any (recv), or fresh ones
func feOp(op string, z *ecgo.FieldElement, a, b *ecgo.FieldElement, e uint64) (*ecgo.FieldElement, bool) {
	switch op {
	case "add":
		return z.Add(a, b), true
	case "sub":
		return z.Sub(a, b), true
	case "mul":
		return z.Mul(a, b), true
	case "neg":
		return z.Neg(a), true
	case "pow":
		return z.Exp(a, e), true
	case "inv":
		r, err := z.Inv(a)
		return r, (err == nil) == (r != nil)
	}
	r, err := z.Sqrt(a)
	return r, (err == nil) == (r != nil)
}
func ptOp(op string, z *ecgo.Point, a, b *ecgo.Point, i *big.Int) *ecgo.Point {
	switch op {
	case "add":
		return z.Add(a, b)
	case "sub":
		return z.Sub(a, b)
	case "mul":
		return z.Mul(a, i)
	case "neg":
		return z.Neg(a)
	}
	return z.Set(a)
}

// takes the operands' objects; nothing but the frames of the calls below refers to them if drop is set
func call(op, dst string, o []obj, a []arg) (res result) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(runtime.Error); ok {
				res = result{r: []string{"exc", "runtime"}}
			} else {
				res = result{r: []string{"exc", "panic"}}
			}
		}
	}()
	n := len(a)
	switch op {
	case "add", "sub", "mul", "neg", "pow", "inv", "sqrt", "set":
		if o[0].kind() == "fe" {
			z := H[dst].fe
			if z == nil {
				z = ecgo.NewFieldElementUI(0, o[0].fe.Order())
			}
			var x, y *ecgo.FieldElement
			var e uint64
			x = o[0].fe
			if n > 1 && a[1].tg == "h" {
				y = o[1].fe
			} else if n > 1 {
				e = a[1].i.Uint64()
			}
			o = nil
			C.hook_on()
			r, consistent := feOp(op, z, x, y, e)
			C.hook_off()
			if !consistent {
				return val("odd")
			}
			if r == nil {
				return none
			}
			if r != z {
				return val("odd")
			}
			return made(obj{fe: z})
		}
		key := o[0].on
		z := H[dst].pt
		if z == nil {
			z = ecgo.NewPointNeutral(shadow[key])
		}
		var x, y *ecgo.Point
		var i *big.Int
		x = o[0].pt
		if n > 1 && a[1].tg == "h" {
			y = o[1].pt
		} else if n > 1 {
			i = a[1].i
		}
		o = nil
		C.hook_on()
		r := ptOp(op, z, x, y, i)
		C.hook_off()
		if r == nil {
			return made(obj{})
		}
		if r != z {
			return val("odd")
		}
		return made(obj{pt: z, on: key})
	}
	C.hook_on()
	defer C.hook_off()
	switch op {
	case "fe":
		if a[0].tg == "u" {
			return made(obj{fe: ecgo.NewFieldElementUI(a[0].i.Uint64(), a[1].i)})
		}
		return made(obj{fe: ecgo.NewFieldElement(a[0].i, a[1].i)})
	case "frand":
		return made(obj{fe: ecgo.NewFieldElementURandom(a[0].i)})
	case "int":
		x := o[0].fe
		o = nil
		return integer(x.AsInt())
	case "order":
		x := o[0].fe
		o = nil
		return integer(x.Order())
	case "bit":
		x := o[0].fe
		o = nil
		return val(strconv.Itoa(int(x.Bit(int(a[1].i.Int64())))))
	case "cmp":
		var r int
		switch o[0].kind() {
		case "fe":
			x, y := o[0].fe, o[1].fe
			o = nil
			r = x.Cmp(y)
		case "cv":
			x, y := o[0].cv, o[1].cv
			o = nil
			r = x.Cmp(y)
		default:
			x, y := o[0].pt, o[1].pt
			o = nil
			r = x.Cmp(y)
		}
		return integer(big.NewInt(int64(r)))
	case "names":
		return val(ecgo.CurveNames()...)
	case "named":
		return made(obj{cv: ecgo.NamedCurve(a[0].s)})
	case "curve":
		return made(obj{cv: build(a[0].s, a[1].i, a[2].i, a[3].i, a[4].i, a[5].i, a[6].i, a[7].i, uint(a[8].i.Uint64()))})
	case "type":
		x := o[0].cv
		o = nil
		return val(coefs[x.Type()][0])
	case "attr":
		x := o[0].cv
		o = nil
		return integer(x.GetAttr(a[1].s))
	case "check":
		x := o[0].cv
		o = nil
		return boolean(x.PointCheck(a[1].i, a[2].i))
	case "affpt":
		x, k := o[0].cv, o[0].on
		o = nil
		return made(obj{pt: ecgo.NewPointXY(a[1].i, a[2].i, x), on: k})
	case "point":
		x, k := o[0].cv, o[0].on
		o = nil
		if n == 1 {
			return made(obj{pt: ecgo.NewPointNeutral(x), on: k})
		}
		if a[1].tg == "t" {
			return made(obj{pt: ecgo.NewPointFromString(a[1].s, x), on: k})
		}
		return made(obj{pt: ecgo.NewPointFromBytes(a[1].b, x), on: k})
	case "gen":
		x, k := o[0].cv, o[0].on
		o = nil
		return made(obj{pt: ecgo.NewPointGenerator(x), on: k})
	case "prand":
		x, k := o[0].cv, o[0].on
		o = nil
		return made(obj{pt: ecgo.NewPointURandom(x), on: k})
	case "affine":
		x := o[0].pt
		o = nil
		return integer2(x.Affine())
	case "isneutral":
		x := o[0].pt
		o = nil
		return boolean(x.IsNeutral())
	case "str":
		x := o[0].pt
		o = nil
		return val(hex.EncodeToString([]byte(x.StringCompressed())))
	case "strfull":
		x := o[0].pt
		o = nil
		return val(hex.EncodeToString([]byte(x.StringUncompressed())))
	case "compressed":
		x := o[0].pt
		o = nil
		return octets(x.BytesCompressed())
	case "uncompressed":
		x := o[0].pt
		o = nil
		return octets(x.BytesUncompressed())
	case "setup":
		x := o[0].pt
		o = nil
		x.SetupBaseMul()
		return none
	case "scheme":
		x, k := o[0].cv, o[0].on
		o = nil
		sz, _ := strconv.Atoi(a[1].s)
		if hashes[sz] == nil {
			hashes[sz] = &cyc{sz: sz}
		}
		return made(obj{sc: ecgo.NewECDSASignatureScheme(x, hashes[sz]), on: k, sz: sz})
	case "sign":
		x, k, sz := o[0].sc, o[0].on, o[0].sz
		o = nil
		hashes[sz].Write([]byte("left over"))
		return made(obj{sg: x.Sign(a[1].i, a[2].b), on: k, sz: sz})
	case "import":
		x, k, sz := o[0].sc, o[0].on, o[0].sz
		o = nil
		return made(obj{sg: x.SignatureFromBytes(a[1].b), on: k, sz: sz})
	case "verify":
		x, y, sz := o[0].sg, o[1].pt, o[0].sz
		o = nil
		hashes[sz].Write([]byte("left over"))
		return boolean(x.Verify(y, a[2].b))
	case "asbytes":
		x := o[0].sg
		o = nil
		return octets(x.AsBytes())
	case "encrypt":
		x, y, k := o[0].pt, o[1].pt, o[0].on
		o = nil
		return made(obj{ct: ecgo.ECElgamalEncrypt(x, y), on: k})
	case "pair":
		x, y, k := o[0].pt, o[1].pt, o[0].on
		o = nil
		return made(obj{ct: ecgo.NewECElgamalCiphertext(x, y), on: k})
	case "decrypt":
		x, k := o[0].ct, o[0].on
		o = nil
		return made(obj{pt: x.Decrypt(a[1].i), on: k})
	case "part":
		x, k := o[0].ct, o[0].on
		o = nil
		if a[1].s == "C" {
			return made(obj{pt: x.C(), on: k})
		}
		return made(obj{pt: x.D(), on: k})
	}
	panic("unknown op " + op)
}
func integer2(x, y *big.Int) result { return integer(x, y) }

var query = map[string]bool{"int": true, "order": true, "bit": true, "cmp": true, "names": true, "type": true, "attr": true, "check": true, "affine": true, "isneutral": true,
	"str": true, "strfull": true, "compressed": true, "uncompressed": true, "setup": true, "verify": true, "asbytes": true}

type event struct {
	Op string        `json:"op"`
	A  []interface{} `json:"a"`
	R  []string      `json:"r"`
	C  [][]string    `json:"c"`
	K  [][]string    `json:"k"`
	U  []string      `json:"u"`
}

var out = bufio.NewWriter(os.Stdout)

func emit(op string, a []interface{}, r []string, u []string) {
	c := [][]string{}
	for h := range last {
		if _, ok := H[h]; !ok {
			c = append(c, []string{h, "gone"})
			delete(last, h)
		}
	}
	for h, x := range H {
		o := observe(x)
		if strings.Join(o, " ") != strings.Join(last[h], " ") {
			c = append(c, append([]string{h}, o...))
			last[h] = o
		}
	}
	k := newk
	newk = nil
	if k == nil {
		k = [][]string{}
	}
	if a == nil {
		a = []interface{}{}
	}
	if r == nil {
		r = []string{}
	}
	if u == nil {
		u = []string{}
	}
	b, _ := json.Marshal(event{op, a, r, c, k, u})
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}

// everything unreachable is finalized, and what that makes unreachable, and so on
func settle(rounds int) {
	for i := 0; i < rounds; i++ {
		done := make(chan bool, 1)
		func() { x := &[4]*int{new(int)}; runtime.SetFinalizer(x, func(*[4]*int) { done <- true }) }()
		runtime.GC()
		select {
		case <-done:
		case <-time.After(2 * time.Second):
		}
	}
}

var mode = os.Getenv("GODRV")

func prepare(w []string) (op, dst string, a []arg, log []interface{}) {
	op = w[0]
	t := w[1:]
	if !query[op] {
		dst = t[0]
		log = append(log, dst)
		t = t[1:]
	}
	for i, x := range t {
		if (op == "attr" || op == "part") && i == 1 {
			a = append(a, arg{s: x, tg: "raw"})
			log = append(log, x)
			continue
		}
		g := operand(x)
		a = append(a, g)
		switch g.tg {
		case "h":
			log = append(log, []string{"h", x})
		case "i", "u":
			log = append(log, []string{"i", hx(g.i)})
		case "w":
			log = append(log, []string{"form", g.s})
		default:
			log = append(log, []string{g.tg, x[2:]})
		}
	}
	return
}
func perform(op, dst string, a []arg, drop bool) (r result, u []string) {
	o := make([]obj, len(a))
	var ints []*big.Int
	var byts [][]byte
	for i, g := range a {
		if g.tg == "h" {
			o[i] = H[g.h]
		}
		if g.i != nil {
			ints = append(ints, new(big.Int).Set(g.i))
		} else {
			ints = append(ints, nil)
		}
		byts = append(byts, append([]byte{}, g.b...))
	}
	if drop {
		for _, g := range a {
			if g.tg == "h" && g.h != dst {
				delete(H, g.h)
			}
		}
	}
	r = call(op, dst, o, a)
	for i, g := range a {
		if g.i != nil && g.i.Cmp(ints[i]) != 0 || g.b != nil && !bytes.Equal(g.b, byts[i]) {
			u = append(u, strconv.Itoa(i+1))
		}
		if g.i != nil { // ours to change again
			g.i.SetInt64(99)
		}
		for j := range g.b {
			g.b[j] ^= 0x5a
		}
	}
	return
}
func run(w []string) {
	defer func() {
		if p := recover(); p != nil {
			m, ok := p.(missing)
			if !ok {
				panic(p)
			}
			emit("gc", []interface{}{"skipped", string(m)}, nil, nil)
		}
	}()
	drop := false
	if w[0] == "last" { // the operands' names are forgotten as the call begins
		drop = true
		w = w[1:]
	}
	switch w[0] {
	case "del":
		if _, ok := H[w[1]]; !ok {
			panic(missing(w[1]))
		}
		delete(H, w[1])
		emit("del", []interface{}{w[1]}, nil, nil)
	case "reset":
		H = map[string]obj{}
		settle(1)
		emit("reset", nil, nil, nil)
	case "gc":
		settle(3)
		emit("gc", nil, nil, nil)
	case "rep":
		k, _ := strconv.Atoi(w[1])
		op, dst, _, log := prepare(w[2:])
		once := func() {
			_, _, a, _ := prepare(w[2:])
			perform(op, dst+"!", a, false)
		}
		measure := func(k, warm, rounds int) int {
			for i := 0; i < warm; i++ {
				once()
			}
			settle(4)
			g := 1 << 30
			for i := 0; i < rounds; i++ {
				b := int(C.live_blocks())
				for j := 0; j < k; j++ {
					once()
				}
				settle(4)
				if d := int(C.live_blocks()) - b; d < g {
					g = d
				}
			}
			return g
		}
		g := measure(k, k, 3)
		if g >= k {
			g = measure(40, 40, 4)
			if g < 40 {
				g = 0
			}
		} else {
			g = 0
		}
		emit("rep", append([]interface{}{w[1], op}, log...), []string{"0", strconv.Itoa(g)}, nil)
	default:
		op, dst, a, log := prepare(w)
		r, u := perform(op, dst, a, drop)
		if r.ok {
			if r.new.cv != nil {
				r.new.on = ckey(r.new.cv)
			}
			H[dst] = r.new
		}
		r.new = obj{}
		if mode == "each" {
			settle(2)
		}
		gone := map[string]bool{}
		if drop {
			for _, g := range a {
				if g.tg == "h" && g.h != dst {
					delete(last, g.h)
					gone[g.h] = true
				}
			}
		}
		emit(op, log, r.r, u)
		for h := range gone {
			b, _ := json.Marshal(event{"del", []interface{}{h}, []string{}, [][]string{{h, "gone"}}, [][]string{}, []string{}})
			out.Write(append(b, '\n'))
			out.Flush()
		}
	}
}

func main() {
	limit := 60
	if len(os.Args) > 1 {
		limit, _ = strconv.Atoi(os.Args[1])
	}
	if mode == "during" {
		go func() {
			for {
				C.hook_wait()
				settle(3)
				C.hook_done()
			}
		}()
		for C.hook_ready() == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	runtime.LockOSThread()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadString('\n')
		w := strings.Fields(line)
		if len(w) > 0 && w[0][0] != '#' {
			t := time.AfterFunc(time.Duration(limit)*time.Second, func() { os.Exit(14) })
			run(w)
			t.Stop()
		}
		if err != nil {
			return
		}
	}
}
