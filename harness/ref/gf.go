// Package ref holds the independent executable models the monitors judge
// against. Nothing here uses, or was derived from, tables or code of the
// library under test.
package ref

// Mul multiplies in GF(2)[x]/(x^8+x^4+x^3+x^2+1), bit by bit.
func mulSlow(a, b byte) byte {
	var r uint16
	x := uint16(a)
	for i := 0; i < 8; i++ {
		if b>>i&1 == 1 {
			r ^= x << i
		}
	}
	for i := 15; i >= 8; i-- {
		if r>>i&1 == 1 {
			r ^= 0x11d << (i - 8)
		}
	}
	return byte(r)
}

var mulT [256][256]byte
var invT [256]byte

func init() {
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			p := mulSlow(byte(a), byte(b))
			mulT[a][b] = p
			if p == 1 {
				invT[a] = byte(b)
			}
		}
	}
}

// Mul is the field product.
func Mul(a, b byte) byte { return mulT[a][b] }

// Inv is the inverse of a non-zero element.
func Inv(a byte) byte {
	if a == 0 {
		panic("ref: inverse of 0")
	}
	return invT[a]
}

// Div is a/b, b != 0.
func Div(a, b byte) byte { return Mul(a, Inv(b)) }

// Pow is a^n by square and multiply, n >= 0, 0^0 = 1.
func Pow(a byte, n uint64) byte {
	r := byte(1)
	for n > 0 {
		if n&1 == 1 {
			r = Mul(r, a)
		}
		a = Mul(a, a)
		n >>= 1
	}
	return r
}

// Eval evaluates c[0]+c[1]x+... at x.
func Eval(c []byte, x byte) byte {
	var r byte
	for i := len(c) - 1; i >= 0; i-- {
		r = Mul(r, x) ^ c[i]
	}
	return r
}

// Solver recovers all coefficients of polynomials of degree < len(xs) from
// their values at the distinct points xs.
type Solver struct {
	k int
	// basis[i*k+j] is coefficient j of the i-th Lagrange basis polynomial
	basis []byte
}

// NewSolver needs distinct points.
func NewSolver(xs []byte) *Solver {
	k := len(xs)
	// master polynomial prod (z - x_i)
	m := make([]byte, k+1)
	m[0] = 1
	deg := 0
	for _, x := range xs {
		// multiply by (z + x)
		for j := deg + 1; j >= 0; j-- {
			var v byte
			if j > 0 {
				v = m[j-1]
			}
			if j <= deg {
				v ^= Mul(m[j], x)
			}
			m[j] = v
		}
		deg++
	}
	s := &Solver{k: k, basis: make([]byte, k*k)}
	for i, x := range xs {
		// q = m / (z - x) by synthetic division
		q := s.basis[i*k : (i+1)*k]
		var carry byte
		for j := k; j >= 1; j-- {
			carry = m[j] ^ Mul(carry, x)
			q[j-1] = carry
		}
		d := Eval(q, x)
		if d == 0 {
			panic("ref: points are not distinct")
		}
		inv := Inv(d)
		for j := range q {
			q[j] = Mul(q[j], inv)
		}
	}
	return s
}

// Coeffs writes the coefficients of the polynomial with values ys to out.
func (s *Solver) Coeffs(ys []byte, out []byte) {
	k := s.k
	for j := 0; j < k; j++ {
		out[j] = 0
	}
	for i, y := range ys {
		if y == 0 {
			continue
		}
		t := &mulT[y]
		b := s.basis[i*k : (i+1)*k]
		for j, v := range b {
			out[j] ^= t[v]
		}
	}
}
