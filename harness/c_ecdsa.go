package main

import (
	"bytes"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"fmt"
	"math/big"
	"os"

	"../../repo/src/collection"
	"../../repo/src/util"
)

// ---------------------------------------------------------------------------
// C18: signing keys.  The random source of the key generation is a reader that
// the harness owns, so the generation is enumerated over chosen scalars.

// scalarReader gives the scalar to every read of its size, and a fixed filler
// to reads of other sizes (the library's "maybe read a byte").
type scalarReader struct{ scalar []byte }

func (r *scalarReader) Read(p []byte) (int, error) {
	if len(p) >= len(r.scalar) {
		for i := range p {
			p[i] = r.scalar[i%len(r.scalar)]
		}
		return len(p), nil
	}
	for i := range p {
		p[i] = 0x5a
	}
	return len(p), nil
}

var p256 = elliptic.P256().Params()

func be32(x *big.Int) []byte {
	b := make([]byte, 32)
	return x.FillBytes(b)
}

// refPublic computes the public point of a scalar independently of the library.
func refPublic(d *big.Int) (x, y *big.Int, err error) {
	k, err := ecdh.P256().NewPrivateKey(be32(d))
	if err != nil {
		return nil, nil, err
	}
	b := k.PublicKey().Bytes()
	if len(b) != 65 || b[0] != 4 {
		return nil, nil, fmt.Errorf("unexpected point encoding")
	}
	return new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:]), nil
}

func onCurve(x, y *big.Int) bool {
	if x == nil || y == nil || x.Sign() < 0 || y.Sign() < 0 || x.Cmp(p256.P) >= 0 || y.Cmp(p256.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Sub(r, big.NewInt(3))
	r.Mul(r, x)
	r.Add(r, p256.B)
	return l.Sub(l, r).Mod(l, p256.P).Sign() == 0
}

func samePublic(a, b *ecdsa.PublicKey) bool {
	return a != nil && b != nil && a.X != nil && b.X != nil && a.Y != nil && b.Y != nil && a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0 &&
		a.Curve == b.Curve
}

// scalars gives every scalar of the bounded space: near 0, near n, around
// every power of two, and byte patterns.
func scalars(near int, shifts bool) []*big.Int {
	var out []*big.Int
	seen := map[string]bool{}
	add := func(x *big.Int) {
		if x.Sign() > 0 && x.Cmp(p256.N) < 0 && !seen[x.String()] {
			seen[x.String()] = true
			out = append(out, new(big.Int).Set(x))
		}
	}
	for i := 1; i <= near; i++ {
		add(big.NewInt(int64(i)))
		add(new(big.Int).Sub(p256.N, big.NewInt(int64(i))))
	}
	if shifts {
		for s := uint(0); s < 256; s++ {
			for d := int64(-1); d <= 1; d++ {
				x := new(big.Int).Lsh(big.NewInt(1), s)
				add(x.Add(x, big.NewInt(d)))
			}
		}
		h := new(big.Int).Rsh(p256.N, 1)
		for d := int64(-2); d <= 2; d++ {
			add(new(big.Int).Add(h, big.NewInt(d)))
		}
		for b := 1; b < 256; b++ {
			add(new(big.Int).SetBytes(bytes.Repeat([]byte{byte(b)}, 32)))
			add(new(big.Int).SetBytes(bytes.Repeat([]byte{byte(b)}, 31)))
		}
		for _, d := range shortX {
			add(big.NewInt(d))
			add(new(big.Int).Sub(p256.N, big.NewInt(d)))
		}
	}
	return out
}

// shortX are private numbers whose public number has leading zero bits (from 4 up to 28) or
// trailing zero bytes (1 and 2), or whose second coordinate has leading zero bytes
var shortX = []int64{23, 55, 379, 552, 5291, 11481, 40393, 116173, 771992, 1340330, 1476301, 273, 65526, 2376, 61552}

// goodPair checks everything that must hold of a pair generated by the library.
func goodPair(k *ecdsa.PrivateKey) error {
	if k == nil || k.D == nil || k.X == nil || k.Y == nil || k.Curve == nil {
		return bad("generate", "no complete key pair is generated")
	}
	if k.Curve != elliptic.P256() {
		return bad("generate", "the key is on another curve")
	}
	if k.D.Sign() <= 0 || k.D.Cmp(p256.N) >= 0 {
		return bad("generate", "private number %x out of range", k.D)
	}
	x, y, err := refPublic(k.D)
	if err != nil {
		return err
	}
	if x.Cmp(k.X) != 0 || y.Cmp(k.Y) != 0 {
		return bad("generate", "private number %x: public point is (%x,%x), not (%x,%x)", k.D, k.X, k.Y, x, y)
	}
	d0, x0, y0 := new(big.Int).Set(k.D), new(big.Int).Set(k.X), new(big.Int).Set(k.Y)
	for _, stored := range [][]byte{be32(k.X), k.X.Bytes(), append([]byte{0}, be32(k.X)...), collection.BigIntToByteArray(k.X)} {
		in := append([]byte{}, stored...)
		p := util.ECDSAGetPublicKey(in)
		if !samePublic(p, &k.PublicKey) {
			return bad("rebuild-public", "private number %x: public key rebuilt from %x is (%x,%x), not (%x,%x)", k.D, stored, p.X, p.Y, k.X, k.Y)
		}
		if !bytes.Equal(in, stored) {
			return bad("modified", "rebuilding the public key changes its input")
		}
	}
	for _, stored := range [][]byte{be32(k.D), k.D.Bytes(), collection.BigIntToByteArray(k.D)} {
		in := append([]byte{}, stored...)
		q := util.ECDSAGetPrivateKey(in)
		if q == nil || q.D == nil || q.D.Cmp(k.D) != 0 || !samePublic(&q.PublicKey, &k.PublicKey) {
			return bad("rebuild-private", "private number %x: the pair rebuilt from %x differs: %v", k.D, stored, q)
		}
		if !bytes.Equal(in, stored) {
			return bad("modified", "rebuilding the private key changes its input")
		}
	}
	if k.D.Cmp(d0) != 0 || k.X.Cmp(x0) != 0 || k.Y.Cmp(y0) != 0 {
		return bad("modified", "rebuilding changes the original key")
	}
	return nil
}

var c18Digests = func() [][]byte {
	var ds [][]byte
	ds = append(ds, make([]byte, 32), bytes.Repeat([]byte{0xff}, 32), util.SumSHA256([]byte("a")), util.SumSHA256d([]byte("a")))
	one := make([]byte, 32)
	one[31] = 1
	top := make([]byte, 32)
	top[0] = 0x80
	ds = append(ds, one, top, be32(new(big.Int).Sub(p256.N, big.NewInt(1))), be32(new(big.Int).Sub(p256.P, big.NewInt(1))))
	return ds
}()

func init() {
	register("C18", checkInfo{level: "exploration",
		rule: "each case is one key pair (a chosen scalar, or one generated while the random source delivers a chosen scalar) rebuilt from every stored form, or one signature verified under every key and digest of the set and every one-bit change of its digest; outcomes are distinguished by the key and by what was accepted",
		assum: []string{"digests are 32 bytes below the group order of the curve apart from one above it, and congruent digests are not compared",
			"the crypto library of the tool chain is trusted for scalar multiplication and signing; GODEBUG=cryptocustomrand=1 lets it take the supplied random source"}},
		func(w *W) {
			os.Setenv("GODEBUG", "cryptocustomrand=1")
			near := 3000
			if !w.Quick() {
				near = 60000
			}
			// a. key pairs rebuilt from a private number
			for _, d := range scalars(near, true) {
				d := d
				w.Case("rebuild", func() string { return fmt.Sprintf("%x", d) }, func() error {
					x, y, err := refPublic(d)
					if err != nil {
						return err
					}
					k := util.ECDSAGetPrivateKey(be32(d))
					if k == nil || k.D.Cmp(d) != 0 || k.X.Cmp(x) != 0 || k.Y.Cmp(y) != 0 {
						return bad("rebuild-private", "pair rebuilt from %x: %v", d, k)
					}
					p := util.ECDSAGetPublicKey(be32(x))
					if p == nil || p.X.Cmp(x) != 0 || !onCurve(p.X, p.Y) {
						return bad("rebuild-public", "public key rebuilt from %x: %v", be32(x), p)
					}
					if yy := util.ECDSACalculateY(elliptic.P256(), new(big.Int).Set(x)); yy == nil || yy.Cmp(p.Y) != 0 {
						return bad("rebuild-public", "Y of %x is %v, and in the rebuilt key %v", x, yy, p.Y)
					}
					w.transitions += 3
					w.Outcome(be32(x), p.Y.Cmp(y) == 0)
					return nil
				})
			}
			// b. generation
			for _, d := range scalars(near, true) {
				d := d
				w.Case("generate", func() string { return fmt.Sprintf("%x", d) }, func() error {
					old := crand.Reader
					defer func() { crand.Reader = old }()
					crand.Reader = &scalarReader{be32(d)}
					k := util.ECDSAGenerateKey()
					crand.Reader = old
					if err := goodPair(k); err != nil {
						return err
					}
					flipped := 2
					if k.D.Cmp(d) == 0 {
						flipped = 0
					} else if new(big.Int).Sub(p256.N, k.D).Cmp(d) == 0 {
						flipped = 1
					}
					w.Note([]string{"generated_as_supplied", "generated_negated", "generated_otherwise"}[flipped], 1)
					w.transitions += 8
					w.Outcome(be32(k.D), flipped)
					return nil
				})
			}
			// c. signatures
			nk := 24
			if !w.Quick() {
				nk = 200
			}
			all := scalars(nk/2, false)
			// one key whose public coordinate has a leading zero byte, and one private number with leading zeros
			for i := int64(1); i < 3000; i++ {
				if x, _, err := refPublic(big.NewInt(i)); err == nil && x.BitLen() <= 248 {
					all = append(all, big.NewInt(i), new(big.Int).Sub(p256.N, big.NewInt(i)))
					break
				}
			}
			var keys []*ecdsa.PrivateKey
			have := map[string]bool{}
			for _, d := range all {
				old := crand.Reader
				crand.Reader = &scalarReader{be32(d)}
				k := util.ECDSAGenerateKey()
				crand.Reader = old
				if k != nil && k.D != nil && !have[k.D.String()] {
					have[k.D.String()] = true
					keys = append(keys, k)
				}
			}
			streams := [][]byte{bytes.Repeat([]byte{0}, 32), bytes.Repeat([]byte{0xff}, 32), be32(big.NewInt(1)), be32(new(big.Int).Sub(p256.N, big.NewInt(1)))}
			for ki := range keys {
				for di := range c18Digests {
					for si := range streams {
						ki, di, si := ki, di, si
						w.Case("sign", func() string {
							return fmt.Sprintf("key %x digest %x random %x", keys[ki].D, c18Digests[di], streams[si])
						}, func() error {
							old := crand.Reader
							defer func() { crand.Reader = old }()
							crand.Reader = &scalarReader{streams[si]}
							k := keys[ki]
							dg := append([]byte{}, c18Digests[di]...)
							r, s, err := util.ECDSASign(k, dg)
							crand.Reader = old
							if err != nil {
								return bad("sign", "cannot sign: %v", err)
							}
							if !bytes.Equal(dg, c18Digests[di]) {
								return bad("modified", "signing changes the digest")
							}
							rr, ss := new(big.Int).Set(r), new(big.Int).Set(s)
							forms := map[string]*ecdsa.PublicKey{"the key": &k.PublicKey,
								"the key rebuilt from its coordinate":     util.ECDSAGetPublicKey(be32(k.X)),
								"the key rebuilt from the private number": &util.ECDSAGetPrivateKey(be32(k.D)).PublicKey}
							for n, p := range forms {
								if !util.ECDSAVerify(p, dg, r, s) {
									return bad("verify", "the signature is rejected under %s", n)
								}
								w.transitions++
							}
							// rebuilt private key signs for the same public key
							r2, s2, err := util.ECDSASign(util.ECDSAGetPrivateKey(be32(k.D)), dg)
							if err != nil || !util.ECDSAVerify(&k.PublicKey, dg, r2, s2) {
								return bad("verify", "a signature of the rebuilt pair is rejected under the original key (%v)", err)
							}
							for dj := range c18Digests {
								if dj != di && util.ECDSAVerify(&k.PublicKey, c18Digests[dj], r, s) {
									return bad("digest", "the signature of %x is accepted for %x", dg, c18Digests[dj])
								}
								w.transitions++
							}
							step := 1
							if w.Quick() && si != 0 {
								step = 31
							}
							for bit := 0; bit < 256; bit += step {
								dg[bit/8] ^= 1 << uint(bit%8)
								if util.ECDSAVerify(&k.PublicKey, dg, r, s) {
									return bad("digest", "the signature is accepted after bit %d of the digest is changed", bit)
								}
								dg[bit/8] ^= 1 << uint(bit%8)
								w.transitions++
							}
							for kj := range keys {
								if kj == ki || keys[kj].X.Cmp(k.X) == 0 {
									continue
								}
								if util.ECDSAVerify(&keys[kj].PublicKey, dg, r, s) {
									return bad("key", "the signature of key %x is accepted under key %x", k.D, keys[kj].D)
								}
								w.transitions++
							}
							if rr.Cmp(r) != 0 || ss.Cmp(s) != 0 {
								return bad("modified", "verifying changes the signature")
							}
							if !util.ECDSAVerify(&k.PublicKey, dg, r, s) {
								return bad("verify", "the signature is rejected when verified again")
							}
							w.Outcome(be32(k.D), dg, si)
							return nil
						})
					}
				}
			}
		})
}
