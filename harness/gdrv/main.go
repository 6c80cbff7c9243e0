// Operation-script driver for the Go binding: executes histories of calls on real ecgo objects and logs what is observed.
// usage: gdrv [-par N] [-churn] SCRIPT OUT  ("@ id" starts a case; one line per operation; one answer line per operation)
// Operands of a "t" operation are temporaries: nothing but the call itself refers to them.
package main

// #include <stdlib.h>
// void vf_hook_enable(int on);
// unsigned long vf_hook_waits(void);
// void vf_gc_tick(void);
// int vf_gc_wanted(void);
// size_t vf_heap(void);
// void vf_alarm(int s);
import "C"

import (
	"bufio"
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"ecgo"
	"encoding/hex"
	"fmt"
	"hash"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

const (
	nreg   = 64
	nshare = 32 // registers from nreg on are shared between the cases
)

type machine struct {
	f  [nreg]*ecgo.FieldElement
	c  [nreg]*ecgo.Curve
	p  [nreg]*ecgo.Point
	s  [nreg]*ecgo.ECDSASignatureScheme
	g  [nreg]*ecgo.ECDSASignature
	e  [nreg]*ecgo.ECElgamalCiphertext
	sh *machine
	t  []string
	// checks made after the operation
	after []func() string
}

type noobj struct{ what string }

func must(ok bool, what string) {
	if !ok {
		panic(noobj{what})
	}
}

func (m *machine) idx(k int) (*machine, int) {
	i, err := strconv.Atoi(m.t[k])
	if err != nil || i < 0 || i >= nreg+nshare {
		panic("bad register " + strings.Join(m.t, " "))
	}
	if i >= nreg {
		if m.sh == nil {
			return m, i - nreg
		}
		return m.sh, i - nreg
	}
	return m, i
}

func (m *machine) F(k int) *ecgo.FieldElement {
	q, i := m.idx(k)
	must(q.f[i] != nil, "f")
	return q.f[i]
}
func (m *machine) C(k int) *ecgo.Curve { q, i := m.idx(k); must(q.c[i] != nil, "c"); return q.c[i] }
func (m *machine) P(k int) *ecgo.Point { q, i := m.idx(k); must(q.p[i] != nil, "p"); return q.p[i] }
func (m *machine) S(k int) *ecgo.ECDSASignatureScheme {
	q, i := m.idx(k)
	must(q.s[i] != nil, "s")
	return q.s[i]
}
func (m *machine) G(k int) *ecgo.ECDSASignature {
	q, i := m.idx(k)
	must(q.g[i] != nil, "g")
	return q.g[i]
}
func (m *machine) E(k int) *ecgo.ECElgamalCiphertext {
	q, i := m.idx(k)
	must(q.e[i] != nil, "e")
	return q.e[i]
}
func (m *machine) setF(k int, v *ecgo.FieldElement)         { q, i := m.idx(k); q.f[i] = v }
func (m *machine) setC(k int, v *ecgo.Curve)                { q, i := m.idx(k); q.c[i] = v }
func (m *machine) setP(k int, v *ecgo.Point)                { q, i := m.idx(k); q.p[i] = v }
func (m *machine) setS(k int, v *ecgo.ECDSASignatureScheme) { q, i := m.idx(k); q.s[i] = v }
func (m *machine) setG(k int, v *ecgo.ECDSASignature)       { q, i := m.idx(k); q.g[i] = v }
func (m *machine) setE(k int, v *ecgo.ECElgamalCiphertext)  { q, i := m.idx(k); q.e[i] = v }

// arguments, watched for changes
func (m *machine) z(k int) *big.Int {
	v, ok := new(big.Int).SetString(m.t[k], 16)
	if !ok {
		panic("bad int " + m.t[k])
	}
	w := new(big.Int).Set(v)
	name := m.t[k]
	m.after = append(m.after, func() string {
		if v.Cmp(w) != 0 {
			return "!argument " + name + " became " + v.Text(16)
		}
		return ""
	})
	return v
}

func unhex(s string) []byte {
	if s == "-" {
		return []byte{}
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("bad hex " + s)
	}
	return b
}

func (m *machine) b(k int) []byte {
	v := unhex(m.t[k])
	w := append([]byte(nil), v...)
	m.after = append(m.after, func() string {
		if !bytes.Equal(v, w) {
			return "!octets changed"
		}
		return ""
	})
	return v
}

func (m *machine) watch(what string, d func() string) {
	w := d()
	m.after = append(m.after, func() string {
		if g := d(); g != w {
			return "!" + what + " became " + g
		}
		return ""
	})
}

func (m *machine) Fa(k int) *ecgo.FieldElement {
	v := m.F(k)
	m.watch("element", func() string { return df(v) })
	return v
}
func (m *machine) Ca(k int) *ecgo.Curve {
	v := m.C(k)
	m.watch("curve", func() string { return dc(v) })
	return v
}
func (m *machine) Pa(k int) *ecgo.Point {
	v := m.P(k)
	m.watch("point", func() string { return dp(v) })
	return v
}

// no forced collections while the driver itself looks at objects it holds
var stress bool

func quiet() func() {
	if !stress {
		return func() {}
	}
	C.vf_hook_enable(0)
	return func() { C.vf_hook_enable(1) }
}

// observations
func hx(z *big.Int) string {
	if z == nil {
		return "nil"
	}
	return z.Text(16)
}
func df(v *ecgo.FieldElement) string {
	defer quiet()()
	if v == nil {
		return "nil"
	}
	return hx(v.AsInt()) + "/" + hx(v.Order())
}
func db(b []byte) string {
	if len(b) == 0 {
		return "-"
	}
	return hex.EncodeToString(b)
}

var coef = map[int][2]string{2: {"ws_a", "ws_b"}, 3: {"ed_c", "ed_d"}, 4: {"mo_B", "mo_A"}, 5: {"te_a", "te_d"}}

func dc(v *ecgo.Curve) string {
	defer quiet()()
	if v == nil {
		return "nil"
	}
	k := coef[v.Type()]
	return fmt.Sprintf("t%d,%s,%s,%s,%s,%s,%s,%s,%s", v.Type(), hx(v.GetAttr("p")), hx(v.GetAttr(k[0])), hx(v.GetAttr(k[1])),
		hx(v.GetAttr("n")), hx(v.GetAttr("h")), hx(v.GetAttr("gx")), hx(v.GetAttr("gy")), v.GetAttr("bits").Text(10))
}
func dp(v *ecgo.Point) string {
	defer quiet()()
	if v == nil {
		return "nil"
	}
	b := v.BytesUncompressed()
	if len(b) == 0 {
		return "empty"
	}
	if b[0] == 0 {
		for _, x := range b {
			if x != 0 {
				return "badneutral"
			}
		}
		return "N"
	}
	if b[0] != 4 || len(b)%2 != 1 {
		return "bad:" + hex.EncodeToString(b)
	}
	h := len(b) / 2
	return new(big.Int).SetBytes(b[1:1+h]).Text(16) + "," + new(big.Int).SetBytes(b[1+h:]).Text(16)
}
func bl(x bool) string {
	if x {
		return "1"
	}
	return "0"
}

type toy struct {
	n   int
	buf []byte
}

func (t *toy) Write(b []byte) (int, error) { t.buf = append(t.buf, b...); return len(b), nil }
func (t *toy) Reset()                      { t.buf = nil }
func (t *toy) Size() int                   { return t.n }
func (t *toy) BlockSize() int              { return 64 }
func (t *toy) Sum(in []byte) []byte {
	a := uint64(1469598103934665603)
	for _, x := range t.buf {
		a = (a ^ uint64(x)) * 1099511628211
	}
	for i := 0; i < t.n; i++ {
		a = (a ^ uint64(i+1)) * 1099511628211
		in = append(in, byte(a>>32))
	}
	return in
}

func newhash(s string) hash.Hash {
	switch s {
	case "md5":
		return md5.New()
	case "sha1":
		return sha1.New()
	case "sha224":
		return sha256.New224()
	case "sha256":
		return sha256.New()
	case "sha384":
		return sha512.New384()
	case "sha512":
		return sha512.New()
	}
	n, err := strconv.Atoi(strings.TrimPrefix(s, "toy"))
	if err != nil {
		panic("bad hash " + s)
	}
	return &toy{n: n}
}

// temporaries: clones that only the caller of the operation holds
//
//go:noinline
func tF(v *ecgo.FieldElement) *ecgo.FieldElement {
	q := quiet()
	a, b := v.AsInt(), v.Order()
	q()
	return ecgo.NewFieldElement(a, b)
}

//go:noinline
func tC(v *ecgo.Curve) *ecgo.Curve {
	q := quiet()
	k := coef[v.Type()]
	a := [7]*big.Int{v.GetAttr("p"), v.GetAttr(k[0]), v.GetAttr(k[1]), v.GetAttr("n"), v.GetAttr("h"), v.GetAttr("gx"), v.GetAttr("gy")}
	bits := uint(v.GetAttr("bits").Uint64())
	q()
	switch v.Type() {
	case ecgo.EQTypeShortWeierstrass:
		return ecgo.ShortWeierstrassCurve(a[0], a[1], a[2], a[3], a[4], a[5], a[6], bits)
	case ecgo.EQTypeEdwards:
		return ecgo.EdwardsCurve(a[0], a[1], a[2], a[3], a[4], a[5], a[6], bits)
	case ecgo.EQTypeMontgomery:
		return ecgo.MontgomeryCurve(a[0], a[1], a[2], a[3], a[4], a[5], a[6], bits)
	}
	return ecgo.TwistedEdwardsCurve(a[0], a[1], a[2], a[3], a[4], a[5], a[6], bits)
}

//go:noinline
func tP(v *ecgo.Point, c *ecgo.Curve) *ecgo.Point {
	q := quiet()
	b := v.BytesUncompressed()
	q()
	return ecgo.NewPointFromBytes(b, tC(c))
}

//go:noinline
func tS(c *ecgo.Curve, h string) *ecgo.ECDSASignatureScheme {
	return ecgo.NewECDSASignatureScheme(tC(c), newhash(h))
}

//go:noinline
func tG(v *ecgo.ECDSASignature, c *ecgo.Curve, h string) *ecgo.ECDSASignature {
	q := quiet()
	b := v.AsBytes()
	q()
	return tS(c, h).SignatureFromBytes(b)
}

//go:noinline
func tE(v *ecgo.ECElgamalCiphertext, c *ecgo.Curve) *ecgo.ECElgamalCiphertext {
	q := quiet()
	a, b := v.C(), v.D()
	q()
	return ecgo.NewECElgamalCiphertext(tP(a, c), tP(b, c))
}

func u64(s string) uint64 {
	v, err := strconv.ParseUint(s, 16, 64)
	if err != nil {
		panic("bad word " + s)
	}
	return v
}
func atoi(s string) int { v, err := strconv.Atoi(s); must(err == nil, s); return v }

func same(a, b *ecgo.Point) string {
	if a != b {
		return "!receiver "
	}
	return ""
}
func samef(a, b *ecgo.FieldElement) string {
	if a != b {
		return "!receiver "
	}
	return ""
}

func (m *machine) do(line string) (ans string) {
	if strings.HasPrefix(line, "share ") {
		m.do(line[6:])
		return "shared"
	}
	m.t = strings.Split(line, " ")
	m.after = m.after[:0]
	defer func() {
		if r := recover(); r != nil {
			if n, ok := r.(noobj); ok {
				ans = "noobj " + n.what
				return
			}
			if re, ok := r.(runtime.Error); ok {
				ans = "panic " + re.Error()
			} else {
				ans = "panic"
			}
			if s, ok := r.(string); ok && strings.HasPrefix(s, "bad ") {
				fmt.Fprintln(os.Stderr, "gdrv: bad script:", s, line)
				os.Exit(97)
			}
		}
		for _, f := range m.after {
			if s := f(); s != "" {
				ans += " " + s
			}
		}
	}()
	return m.exec()
}

func (m *machine) exec() string {
	t := m.t
	switch t[0] {
	// ---- elements
	case "fnew":
		v := ecgo.NewFieldElement(m.z(2), m.z(3))
		m.setF(1, v)
		return df(v)
	case "fui":
		v := ecgo.NewFieldElementUI(u64(t[2]), m.z(3))
		m.setF(1, v)
		return df(v)
	case "furand":
		v := ecgo.NewFieldElementURandom(m.z(2))
		m.setF(1, v)
		return df(v)
	case "fadd", "fsub", "fmul":
		d := m.F(1)
		var a, b *ecgo.FieldElement
		if a = m.F(2); a != d {
			m.Fa(2)
		}
		if b = m.F(3); b != d {
			m.Fa(3)
		}
		var r *ecgo.FieldElement
		switch t[0] {
		case "fadd":
			r = d.Add(a, b)
		case "fsub":
			r = d.Sub(a, b)
		default:
			r = d.Mul(a, b)
		}
		return samef(r, d) + df(d)
	case "fneg":
		d, a := m.F(1), m.F(2)
		if a != d {
			m.Fa(2)
		}
		return samef(d.Neg(a), d) + df(d)
	case "fexp":
		d, a := m.F(1), m.F(2)
		if a != d {
			m.Fa(2)
		}
		return samef(d.Exp(a, u64(t[3])), d) + df(d)
	case "finv", "fsqrt":
		d, a := m.F(1), m.F(2)
		if a != d {
			m.Fa(2)
		}
		var r *ecgo.FieldElement
		var err error
		if t[0] == "finv" {
			r, err = d.Inv(a)
		} else {
			r, err = d.Sqrt(a)
		}
		if err != nil {
			if r != nil {
				return "err with a value"
			}
			if a == d {
				return "err"
			}
			return "err"
		}
		return samef(r, d) + "ok " + df(d)
	case "fbit":
		return strconv.Itoa(int(m.Fa(1).Bit(atoi(t[2]))))
	case "fcmp":
		return strconv.Itoa(sgn(m.Fa(1).Cmp(m.Fa(2))))
	case "fget":
		return df(m.F(1))
	// ---- elements, temporaries
	case "tfadd":
		return df(tF(m.F(1)).Add(tF(m.F(2)), tF(m.F(3))))
	case "tfsub":
		return df(tF(m.F(1)).Sub(tF(m.F(2)), tF(m.F(3))))
	case "tfmul":
		return df(tF(m.F(1)).Mul(tF(m.F(2)), tF(m.F(3))))
	case "tfneg":
		return df(tF(m.F(1)).Neg(tF(m.F(2))))
	case "tfexp":
		return df(tF(m.F(1)).Exp(tF(m.F(2)), u64(t[3])))
	case "tfinv":
		r, err := tF(m.F(1)).Inv(tF(m.F(2)))
		if err != nil {
			return "err"
		}
		return "ok " + df(r)
	case "tfsqrt":
		r, err := tF(m.F(1)).Sqrt(tF(m.F(2)))
		if err != nil {
			return "err"
		}
		return "ok " + df(r)
	case "tfbit":
		return strconv.Itoa(int(tF(m.F(1)).Bit(atoi(t[2]))))
	case "tfcmp":
		return strconv.Itoa(sgn(tF(m.F(1)).Cmp(tF(m.F(2)))))
	case "tfget":
		return hx(tF(m.F(1)).AsInt()) + "/" + hx(tF(m.F(1)).Order())
	// ---- curves
	case "cname":
		c := ecgo.NamedCurve(string(unhex(t[2])))
		m.setC(1, c)
		return dc(c)
	case "cset":
		var c *ecgo.Curve
		bits := uint(atoi(t[10]))
		switch t[2] {
		case "2":
			c = ecgo.ShortWeierstrassCurve(m.z(3), m.z(4), m.z(5), m.z(6), m.z(7), m.z(8), m.z(9), bits)
		case "3":
			c = ecgo.EdwardsCurve(m.z(3), m.z(4), m.z(5), m.z(6), m.z(7), m.z(8), m.z(9), bits)
		case "4":
			c = ecgo.MontgomeryCurve(m.z(3), m.z(4), m.z(5), m.z(6), m.z(7), m.z(8), m.z(9), bits)
		default:
			c = ecgo.TwistedEdwardsCurve(m.z(3), m.z(4), m.z(5), m.z(6), m.z(7), m.z(8), m.z(9), bits)
		}
		m.setC(1, c)
		return dc(c)
	case "cnames":
		return strings.Join(ecgo.CurveNames(), ",")
	case "cdump":
		return dc(m.C(1))
	case "cattr":
		return hx(m.Ca(1).GetAttr(string(unhex(t[2]))))
	case "ccmp":
		return bl(m.Ca(1).Cmp(m.Ca(2)) != 0)
	case "cchk":
		return bl(m.Ca(1).PointCheck(m.z(2), m.z(3)))
	case "tcdump":
		return dc(tC(m.C(1)))
	case "tcattr":
		return hx(tC(m.C(1)).GetAttr(string(unhex(t[2]))))
	case "tccmp":
		return bl(tC(m.C(1)).Cmp(tC(m.C(2))) != 0)
	case "tcchk":
		return bl(tC(m.C(1)).PointCheck(m.z(2), m.z(3)))
	case "tctype":
		return strconv.Itoa(tC(m.C(1)).Type())
	// ---- points: creation (p curve args)
	case "pxy":
		v := ecgo.NewPointXY(m.z(3), m.z(4), m.Ca(2))
		m.setP(1, v)
		return dp(v)
	case "pneut":
		v := ecgo.NewPointNeutral(m.Ca(2))
		m.setP(1, v)
		return dp(v)
	case "pgen":
		v := ecgo.NewPointGenerator(m.Ca(2))
		m.setP(1, v)
		return dp(v)
	case "purand":
		v := ecgo.NewPointURandom(m.Ca(2))
		m.setP(1, v)
		return dp(v)
	case "pstr":
		v := ecgo.NewPointFromString(string(unhex(t[3])), m.Ca(2))
		m.setP(1, v)
		return dp(v)
	case "pbytes":
		v := ecgo.NewPointFromBytes(m.b(3), m.Ca(2))
		m.setP(1, v)
		return dp(v)
	case "tpxy":
		v := ecgo.NewPointXY(m.z(3), m.z(4), tC(m.C(2)))
		m.setP(1, v)
		return dp(v)
	case "tpneut":
		v := ecgo.NewPointNeutral(tC(m.C(2)))
		m.setP(1, v)
		return dp(v)
	case "tpgen":
		v := ecgo.NewPointGenerator(tC(m.C(2)))
		m.setP(1, v)
		return dp(v)
	case "tpurand":
		v := ecgo.NewPointURandom(tC(m.C(2)))
		m.setP(1, v)
		return dp(v)
	case "tpstr":
		v := ecgo.NewPointFromString(string(unhex(t[3])), tC(m.C(2)))
		m.setP(1, v)
		return dp(v)
	case "tpbytes":
		v := ecgo.NewPointFromBytes(m.b(3), tC(m.C(2)))
		m.setP(1, v)
		return dp(v)
	// ---- points: operations
	case "pdump":
		return dp(m.P(1))
	case "paff":
		x, y := m.Pa(1).Affine()
		return hx(x) + "," + hx(y)
	case "pisn":
		return bl(m.Pa(1).IsNeutral())
	case "penc":
		p := m.Pa(1)
		return p.StringCompressed() + " " + p.StringUncompressed() + " " + db(p.BytesCompressed()) + " " + db(p.BytesUncompressed())
	case "pcmp":
		return bl(m.Pa(1).Cmp(m.Pa(2)) != 0)
	case "padd", "psub":
		d, a, b := m.P(1), m.P(2), m.P(3)
		if a != d {
			m.Pa(2)
		}
		if b != d {
			m.Pa(3)
		}
		var r *ecgo.Point
		if t[0] == "padd" {
			r = d.Add(a, b)
		} else {
			r = d.Sub(a, b)
		}
		return same(r, d) + dp(d)
	case "pneg", "pset":
		d, a := m.P(1), m.P(2)
		if a != d {
			m.Pa(2)
		}
		var r *ecgo.Point
		if t[0] == "pneg" {
			r = d.Neg(a)
		} else {
			r = d.Set(a)
		}
		return same(r, d) + dp(d)
	case "pmul":
		d, a := m.P(1), m.P(2)
		if a != d {
			m.Pa(2)
		}
		return same(d.Mul(a, m.z(3)), d) + dp(d)
	case "psetup":
		m.Pa(1).SetupBaseMul()
		return dp(m.P(1))
	// ---- points, temporaries (curve register last)
	case "tpadd":
		return dp(ecgo.NewPointNeutral(tC(m.C(4))).Add(tP(m.P(2), m.C(4)), tP(m.P(3), m.C(4))))
	case "tpsub":
		return dp(ecgo.NewPointNeutral(tC(m.C(4))).Sub(tP(m.P(2), m.C(4)), tP(m.P(3), m.C(4))))
	case "tpneg":
		return dp(ecgo.NewPointNeutral(tC(m.C(3))).Neg(tP(m.P(2), m.C(3))))
	case "tpset":
		return dp(ecgo.NewPointNeutral(tC(m.C(3))).Set(tP(m.P(2), m.C(3))))
	case "tpmul":
		return dp(ecgo.NewPointNeutral(tC(m.C(4))).Mul(tP(m.P(2), m.C(4)), m.z(3)))
	case "tpbmul":
		q := tP(m.P(2), m.C(4))
		q.SetupBaseMul()
		return dp(ecgo.NewPointNeutral(tC(m.C(4))).Mul(q, m.z(3)))
	case "tpcmp":
		return bl(tP(m.P(1), m.C(3)).Cmp(tP(m.P(2), m.C(3))) != 0)
	case "tpenc":
		return tP(m.P(1), m.C(2)).StringCompressed() + " " + tP(m.P(1), m.C(2)).StringUncompressed() + " " + db(tP(m.P(1), m.C(2)).BytesCompressed()) + " " + db(tP(m.P(1), m.C(2)).BytesUncompressed())
	case "tpaff":
		x, y := tP(m.P(1), m.C(2)).Affine()
		return hx(x) + "," + hx(y)
	case "tpisn":
		return bl(tP(m.P(1), m.C(2)).IsNeutral())
	case "tpbase":
		tP(m.P(1), m.C(2)).SetupBaseMul()
		return dp(m.P(1))
	// results that keep living on the curves of temporaries: register d takes the value
	case "xpadd", "xpsub":
		d := m.P(1)
		if t[0] == "xpadd" {
			d.Add(tP(m.P(2), m.C(4)), tP(m.P(3), m.C(4)))
		} else {
			d.Sub(tP(m.P(2), m.C(4)), tP(m.P(3), m.C(4)))
		}
		return dp(d)
	case "xpneg":
		d := m.P(1)
		d.Neg(tP(m.P(2), m.C(3)))
		return dp(d)
	case "xpset":
		d := m.P(1)
		d.Set(tP(m.P(2), m.C(3)))
		return dp(d)
	case "xpmul":
		d := m.P(1)
		d.Mul(tP(m.P(2), m.C(4)), m.z(3))
		return dp(d)
	// ---- signatures
	case "sch":
		m.setS(1, ecgo.NewECDSASignatureScheme(m.Ca(2), newhash(t[3])))
		return "0"
	case "sign": // g s d msg
		v := m.S(2).Sign(m.z(3), m.b(4))
		m.setG(1, v)
		if v == nil {
			return "nil"
		}
		return db(v.AsBytes())
	case "gbytes":
		return db(m.G(1).AsBytes())
	case "gfrom":
		v := m.S(2).SignatureFromBytes(m.b(3))
		m.setG(1, v)
		if v == nil {
			return "nil"
		}
		return db(v.AsBytes())
	case "verify": // g p msg
		g := m.G(1)
		m.watch("signature", func() string { return db(g.AsBytes()) })
		return bl(g.Verify(m.Pa(2), m.b(3)))
	case "xsign": // g c hash d msg
		v := tS(m.C(2), t[3]).Sign(m.z(4), m.b(5))
		m.setG(1, v)
		if v == nil {
			return "nil"
		}
		return db(v.AsBytes())
	case "xgfrom": // g c hash bytes
		v := tS(m.C(2), t[3]).SignatureFromBytes(m.b(4))
		m.setG(1, v)
		if v == nil {
			return "nil"
		}
		return db(v.AsBytes())
	case "tsign": // c hash d msg
		return db(tS(m.C(1), t[2]).Sign(m.z(3), m.b(4)).AsBytes())
	case "tverify": // g p msg c hash
		return bl(tG(m.G(1), m.C(4), t[5]).Verify(tP(m.P(2), m.C(4)), m.b(3)))
	// ---- Elgamal
	case "enc": // e pub msg
		v := ecgo.ECElgamalEncrypt(m.Pa(2), m.Pa(3))
		m.setE(1, v)
		if v == nil {
			return "nil"
		}
		return dp(v.C()) + " " + dp(v.D())
	case "xenc": // e pub msg c
		v := ecgo.ECElgamalEncrypt(tP(m.P(2), m.C(4)), tP(m.P(3), m.C(4)))
		m.setE(1, v)
		if v == nil {
			return "nil"
		}
		return dp(v.C()) + " " + dp(v.D())
	case "enew":
		v := ecgo.NewECElgamalCiphertext(m.Pa(2), m.Pa(3))
		m.setE(1, v)
		if v == nil {
			return "nil"
		}
		return dp(v.C()) + " " + dp(v.D())
	case "xenew": // e C D c
		v := ecgo.NewECElgamalCiphertext(tP(m.P(2), m.C(4)), tP(m.P(3), m.C(4)))
		m.setE(1, v)
		if v == nil {
			return "nil"
		}
		return dp(v.C()) + " " + dp(v.D())
	case "ecd":
		e := m.E(1)
		return dp(e.C()) + " " + dp(e.D())
	case "ept": // p e which
		e := m.E(2)
		var v *ecgo.Point
		if t[3] == "C" {
			v = e.C()
		} else {
			v = e.D()
		}
		m.setP(1, v)
		return dp(v)
	case "dec": // p e d
		e := m.E(2)
		m.watch("ciphertext", func() string { return dp(e.C()) + dp(e.D()) })
		v := e.Decrypt(m.z(3))
		m.setP(1, v)
		return dp(v)
	case "tdec": // e d c
		return dp(tE(m.E(1), m.C(3)).Decrypt(m.z(2)))
	case "xdec": // p e d c
		v := tE(m.E(2), m.C(4)).Decrypt(m.z(3))
		m.setP(1, v)
		return dp(v)
	case "tecd":
		return dp(tE(m.E(1), m.C(2)).C()) + " " + dp(tE(m.E(1), m.C(2)).D())
	// ---- lifetime
	case "drop":
		q, i := m.idx(2)
		switch t[1] {
		case "f":
			q.f[i] = nil
		case "c":
			q.c[i] = nil
		case "p":
			q.p[i] = nil
		case "s":
			q.s[i] = nil
		case "g":
			q.g[i] = nil
		case "e":
			q.e[i] = nil
		}
		return "0"
	case "gc":
		settle(2)
		return "0"
	}
	panic("bad op " + t[0])
}

func sgn(x int) int {
	if x < 0 {
		return -1
	}
	if x > 0 {
		return 1
	}
	return 0
}

type sentinel struct{ ch chan struct{}; pad [64]byte }

// one collection after which the finalizers it queued have run
func gcOnce() {
	s := &sentinel{ch: make(chan struct{})}
	ch := s.ch
	runtime.SetFinalizer(s, func(s *sentinel) { close(s.ch) })
	s = nil
	for i := 0; i < 50; i++ {
		runtime.GC()
		select {
		case <-ch:
			return
		case <-time.After(20 * time.Millisecond):
		}
	}
}

func settle(n int) {
	for i := 0; i < n; i++ {
		gcOnce()
	}
}

type scase struct {
	id  string
	ops []string
	out []string
}

func main() {
	par, churn, rep := 0, false, 0
	args := os.Args[1:]
	if v := os.Getenv("GDRV_PAR"); v != "" {
		par = atoi(v)
	}
	if v := os.Getenv("GDRV_REP"); v != "" {
		rep = atoi(v)
	}
	churn = os.Getenv("GDRV_CHURN") != ""
	if v := os.Getenv("OPDRV_ALARM"); v != "" {
		C.vf_alarm(C.int(atoi(v)))
	}
	src, err := os.ReadFile(args[0])
	if err != nil {
		os.Exit(96)
	}
	fo, err := os.Create(args[1])
	if err != nil {
		os.Exit(96)
	}
	out := bufio.NewWriter(fo)
	var cases []*scase
	var pre []string
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "@ ") {
			cases = append(cases, &scase{id: l})
		} else if l != "" {
			if len(cases) == 0 {
				pre = append(pre, l)
			} else {
				k := cases[len(cases)-1]
				k.ops = append(k.ops, l)
			}
		}
	}
	shared := &machine{}
	if churn {
		debug.SetGCPercent(-1)
		go func() {
			for {
				if par == 0 {
					for C.vf_gc_wanted() == 0 {
						time.Sleep(20 * time.Microsecond)
					}
				} else {
					time.Sleep(500 * time.Microsecond)
				}
				gcOnce()
				gcOnce()
				C.vf_gc_tick()
			}
		}()
	}
	if par == 0 {
		runtime.LockOSThread()
		if churn {
			stress = true
			C.vf_hook_enable(1)
		}
		for _, k := range cases {
			sh := &machine{}
			m := &machine{sh: sh}
			fmt.Fprintln(out, k.id)
			for _, l := range k.ops {
				if os.Getenv("OPDRV_UNBUF") != "" {
					out.Flush()
				}
				if l == "reset" {
					m = &machine{sh: &machine{}}
					fmt.Fprintln(out, "0")
					continue
				}
				a := m.do(l)
				if strings.HasPrefix(a, "noobj") {
					fmt.Fprintln(os.Stderr, "gdrv:", a, "for", l)
					out.Flush()
					os.Exit(97)
				}
				fmt.Fprintln(out, a)
			}
			if rep == 0 {
				out.Flush()
			}
		}
		if churn {
			stress = false
			C.vf_hook_enable(0)
			fmt.Fprintf(os.Stderr, "WAITS %d\n", uint64(C.vf_hook_waits()))
		}
		if rep > 0 {
			// the same histories again and again: the C heap must not grow
			round := func() {
				for _, k := range cases {
					m := &machine{sh: &machine{}}
					for _, l := range k.ops {
						if l != "reset" {
							m.do(l)
						}
					}
				}
			}
			var h []uint64
			for i := 0; i < rep; i++ {
				round()
				settle(3)
				h = append(h, uint64(C.vf_heap()))
			}
			fmt.Fprintf(os.Stderr, "HEAP %v\n", h)
		}
	} else {
		for _, k := range cases {
			for _, l := range k.ops {
				if strings.HasPrefix(l, "share ") {
					l = strings.TrimPrefix(l, "share ")
					pre = append(pre, l)
				}
			}
		}
		for _, l := range pre {
			a := shared.do(l)
			if strings.HasPrefix(a, "noobj") || strings.HasPrefix(a, "panic") || strings.HasPrefix(a, "nil") {
				fmt.Fprintln(os.Stderr, "gdrv: preamble", l, a)
				os.Exit(97)
			}
		}
		var wg sync.WaitGroup
		next := make(chan *scase)
		for i := 0; i < par; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := range next {
					m := &machine{sh: shared}
					for _, l := range k.ops {
						if l == "reset" {
							m = &machine{sh: shared}
							k.out = append(k.out, "0")
							continue
						}
						if strings.HasPrefix(l, "share ") {
							k.out = append(k.out, "shared")
							continue
						}
						k.out = append(k.out, m.do(l))
					}
				}
			}()
		}
		for _, k := range cases {
			next <- k
		}
		close(next)
		wg.Wait()
		for _, k := range cases {
			fmt.Fprintln(out, k.id)
			for _, a := range k.out {
				if strings.HasPrefix(a, "noobj") {
					out.Flush()
					fmt.Fprintln(os.Stderr, "gdrv:", a)
					os.Exit(97)
				}
				fmt.Fprintln(out, a)
			}
		}
	}
	fmt.Fprintln(out, "END")
	out.Flush()
	fo.Close()
	os.Exit(0)
}
