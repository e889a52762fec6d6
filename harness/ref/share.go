package ref

import (
	"crypto/aes"
	"encoding/binary"
	"errors"
	"fmt"
)

// Poly is one polynomial per secret byte, Poly[p][i] the coefficient of x^i.
type Poly [][]byte

// Recover interpolates the first k shares and checks the other shares lie on
// the same polynomials.
func Recover(shares [][]byte, k int) (Poly, error) {
	if len(shares) < k {
		return nil, errors.New("too few shares")
	}
	l := len(shares[0]) - 1
	xs := make([]byte, len(shares))
	seen := map[byte]bool{}
	for i, s := range shares {
		if len(s) != l+1 {
			return nil, fmt.Errorf("share %d has length %d, share 0 has %d", i, len(s), l+1)
		}
		xs[i] = s[l]
		if seen[xs[i]] {
			return nil, fmt.Errorf("point %d occurs twice", xs[i])
		}
		seen[xs[i]] = true
	}
	sv := NewSolver(xs[:k])
	buf := make([]byte, l*k)
	p := make(Poly, l)
	ys := make([]byte, k)
	for j := 0; j < l; j++ {
		p[j] = buf[j*k : (j+1)*k : (j+1)*k]
		for i := 0; i < k; i++ {
			ys[i] = shares[i][j]
		}
		sv.Coeffs(ys, p[j])
		for i := k; i < len(shares); i++ {
			if Eval(p[j], xs[i]) != shares[i][j] {
				return nil, fmt.Errorf("byte %d: share %d (point %d) is not on the polynomial of degree < %d through shares 0..%d", j, i, xs[i], k, k-1)
			}
		}
	}
	return p, nil
}

// Secret is the constant terms.
func (p Poly) Secret() []byte {
	s := make([]byte, len(p))
	for i := range p {
		s[i] = p[i][0]
	}
	return s
}

// MakeShares evaluates the polynomials at xs.
func (p Poly) MakeShares(xs []byte) [][]byte {
	out := make([][]byte, len(xs))
	for i, x := range xs {
		out[i] = make([]byte, len(p)+1)
		for j := range p {
			out[i][j] = Eval(p[j], x)
		}
		out[i][len(p)] = x
	}
	return out
}

// SSMS share layout.
const (
	KeyLen   = 16
	MetaLen  = KeyLen + 4 + 1
	Overhead = MetaLen + 1
)

// OFB en/decrypts with AES-128 in OFB mode under a zero IV.
func OFB(key, data []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	var reg [16]byte
	for i := range data {
		if i%16 == 0 {
			b.Encrypt(reg[:], reg[:])
		}
		out[i] = data[i] ^ reg[i%16]
	}
	return out
}

// rsMatrix is the systematic matrix V * V_top^-1 of the Vandermonde matrix
// V[r][c] = r^c.
func rsMatrix(n, k int) [][]byte {
	// column j of V*Vtop^-1: polynomial through (0..k-1) -> unit vector j,
	// evaluated at r, i.e. Lagrange basis j at r.
	xs := make([]byte, k)
	for i := range xs {
		xs[i] = byte(i)
	}
	sv := NewSolver(xs)
	m := make([][]byte, n)
	for r := range m {
		m[r] = make([]byte, k)
		if r < k {
			m[r][r] = 1
			continue
		}
		for j := 0; j < k; j++ {
			m[r][j] = Eval(sv.basis[j*k:(j+1)*k], byte(r))
		}
	}
	return m
}

// RSEncode splits data into k parts and adds n-k parity parts.
func RSEncode(data []byte, n, k int) [][]byte {
	per := (len(data) + k - 1) / k
	padded := make([]byte, per*k)
	copy(padded, data)
	m := rsMatrix(n, k)
	out := make([][]byte, n)
	for r := range out {
		out[r] = make([]byte, per)
		if r < k {
			copy(out[r], padded[r*per:])
			continue
		}
		for j := 0; j < k; j++ {
			c := m[r][j]
			if c == 0 {
				continue
			}
			t := &mulT[c]
			src := padded[j*per : (j+1)*per]
			for b, v := range src {
				out[r][b] ^= t[v]
			}
		}
	}
	return out
}

// RSDecode rebuilds the k data parts from any k parts given by number: every
// column of the parts is a polynomial of degree < k over the part numbers.
func RSDecode(parts map[int][]byte, k, length int) ([]byte, error) {
	var ids []int
	for i := 0; i < 256 && len(ids) < k; i++ {
		if _, ok := parts[i]; ok {
			ids = append(ids, i)
		}
	}
	if len(ids) < k {
		return nil, errors.New("too few parts")
	}
	per := (length + k - 1) / k
	xs := make([]byte, k)
	for i, id := range ids {
		xs[i] = byte(id)
		if len(parts[id]) != per {
			return nil, fmt.Errorf("part %d has %d bytes, want %d", id, len(parts[id]), per)
		}
	}
	sv := NewSolver(xs)
	out := make([]byte, per*k)
	ys := make([]byte, k)
	cf := make([]byte, k)
	for b := 0; b < per; b++ {
		for i, id := range ids {
			ys[i] = parts[id][b]
		}
		sv.Coeffs(ys, cf)
		for r := 0; r < k; r++ {
			out[r*per+b] = Eval(cf, byte(r))
		}
	}
	return out[:length], nil
}

// SSMS is an opened SSMS share set.
type SSMS struct {
	Key    []byte
	Length int
	Cipher []byte
	Secret []byte
	Meta   Poly
	Points []byte
}

// OpenSSMS decodes all n shares of one split independently and checks every
// byte of every share against the format.
func OpenSSMS(shares [][]byte, n, k int) (*SSMS, error) {
	if len(shares) != n {
		return nil, fmt.Errorf("%d shares, want %d", len(shares), n)
	}
	meta := make([][]byte, n)
	parts := map[int][]byte{}
	for i, s := range shares {
		if len(s) < MetaLen+2 {
			return nil, fmt.Errorf("share %d has only %d bytes", i, len(s))
		}
		meta[i] = s[:MetaLen]
		id := int(s[len(s)-1])
		if id >= n {
			return nil, fmt.Errorf("share %d has part number %d of %d", i, id, n)
		}
		if _, dup := parts[id]; dup {
			return nil, fmt.Errorf("part number %d occurs twice", id)
		}
		parts[id] = s[MetaLen : len(s)-1]
	}
	p, err := Recover(meta, k)
	if err != nil {
		return nil, fmt.Errorf("metadata: %v", err)
	}
	kl := p.Secret()
	o := &SSMS{Key: kl[:KeyLen], Length: int(binary.LittleEndian.Uint32(kl[KeyLen:])), Meta: p}
	for _, m := range meta {
		o.Points = append(o.Points, m[MetaLen-1])
	}
	per := (o.Length + k - 1) / k
	for id, d := range parts {
		if len(d) != per {
			return nil, fmt.Errorf("part %d has %d payload bytes, want %d for length %d and k=%d", id, len(d), per, o.Length, k)
		}
	}
	cat := make([]byte, 0, per*k)
	for r := 0; r < k; r++ {
		cat = append(cat, parts[r]...)
	}
	for _, b := range cat[o.Length:] {
		if b != 0 {
			return nil, errors.New("padding is not zero")
		}
	}
	o.Cipher = cat[:o.Length]
	enc := RSEncode(o.Cipher, n, k)
	for r := k; r < n; r++ {
		for b := range enc[r] {
			if enc[r][b] != parts[r][b] {
				return nil, fmt.Errorf("parity part %d differs from the Reed-Solomon code at byte %d", r, b)
			}
		}
	}
	o.Secret = OFB(o.Key, o.Cipher)
	return o, nil
}

// MakeSSMS builds the n shares of a secret: key polynomials for key||length
// must have the right constant terms already.
func MakeSSMS(secret, key []byte, n, k int, xs []byte, rnd func([]byte)) [][]byte {
	kl := append(append([]byte{}, key...), 0, 0, 0, 0)
	binary.LittleEndian.PutUint32(kl[KeyLen:], uint32(len(secret)))
	p := RandPoly(kl, k, rnd)
	meta := p.MakeShares(xs)
	parts := RSEncode(OFB(key, secret), n, k)
	out := make([][]byte, n)
	for i := range out {
		out[i] = append(append(append([]byte{}, meta[i]...), parts[i]...), byte(i))
	}
	return out
}

// RandPoly makes polynomials of degree < k with the given constant terms.
func RandPoly(secret []byte, k int, rnd func([]byte)) Poly {
	buf := make([]byte, len(secret)*k)
	rnd(buf)
	p := make(Poly, len(secret))
	for j := range p {
		p[j] = buf[j*k : (j+1)*k]
		p[j][0] = secret[j]
	}
	return p
}

// RecoverCols is Recover for long secrets: it returns the coefficients by
// degree, cols[i][p] being the coefficient of x^i of the polynomial for byte p.
func RecoverCols(shares [][]byte, k int) ([][]byte, error) {
	if len(shares) < k {
		return nil, errors.New("too few shares")
	}
	l := len(shares[0]) - 1
	xs := make([]byte, len(shares))
	for i, s := range shares {
		if len(s) != l+1 {
			return nil, fmt.Errorf("share %d has length %d, share 0 has %d", i, len(s), l+1)
		}
		xs[i] = s[l]
		for _, x := range xs[:i] {
			if x == xs[i] {
				return nil, fmt.Errorf("point %d occurs twice", x)
			}
		}
	}
	sv := NewSolver(xs[:k])
	cols := make([][]byte, k)
	for d := range cols {
		cols[d] = make([]byte, l)
		for i := 0; i < k; i++ {
			if f := sv.basis[i*k+d]; f != 0 {
				t := &mulT[f]
				for j, y := range shares[i][:l] {
					cols[d][j] ^= t[y]
				}
			}
		}
	}
	v := make([]byte, l)
	for i := k; i < len(shares); i++ {
		copy(v, cols[k-1])
		t := &mulT[xs[i]]
		for d := k - 2; d >= 0; d-- {
			for j, w := range cols[d] {
				v[j] = t[v[j]] ^ w
			}
		}
		for j, y := range shares[i][:l] {
			if v[j] != y {
				return nil, fmt.Errorf("byte %d: share %d (point %d) is not on the polynomial of degree < %d through shares 0..%d", j, i, xs[i], k, k-1)
			}
		}
	}
	return cols, nil
}
