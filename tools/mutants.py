# (kind, properties, file, [(old,new),...])   kind: bug | same
M=[]
def B(p,f,*e): M.append(('bug',p,f,list(e)))
def S(p,f,*e): M.append(('same',p,f,list(e)))
U='utils.go'; SM='sm2_std.go'; EC='eccset.go'
# ---- C08
S('C08',U,("s.Sub(priv.Curve.Params().N, s)\n				v ^= 1","s.Neg(s)\n				s.Add(s, N)\n				v = 1 - v"))
S('C08',U,("if ry.Mod(ry, big.NewInt(2)).Cmp(big.NewInt(1)) == 0 {\n					v = 0x01\n				} else {\n					v = 0x00\n				}","v = byte(ry.Bit(0))"))
S('C08',U,("new(big.Int).Div(priv.Curve.Params().N, big.NewInt(2))","new(big.Int).Rsh(N, 1)"))
S('C08',U,("kInv = fermatInverse(k, N) // N != 0","kInv = new(big.Int).ModInverse(k, N)"))
S('C08',U,("s = new(big.Int).Mul(priv.D, r)\n		s.Add(s, e)\n		s.Mul(s, kInv)","t := new(big.Int).Mul(r, priv.D)\n		t.Add(t, e)\n		t.Mod(t, N)\n		s = new(big.Int).Mul(kInv, t)"))
S('C08',U,("rBytes := r.Bytes()\n				for len(rBytes) < 32 {\n					rBytes = append([]byte{0x00}, rBytes...)\n				}","rBytes := make([]byte, 32)\n				r.FillBytes(rBytes)"))
S('C08',U,("if !((sBytes[0]&0x80 == 0) && !(sBytes[0] == 0 && (sBytes[1]&0x80 == 0))) {","if sBytes[0] >= 0x80 || (sBytes[0] == 0 && sBytes[1] < 0x80) {"))
S('C08',U,("u1 := e.Mul(e, w)\n	u1.Mod(u1, N)\n	u2 := w.Mul(r, w)\n	u2.Mod(u2, N)","u2 := new(big.Int).Mul(w, r)\n	u2.Mod(u2, N)\n	u1 := new(big.Int).Mul(w, e)\n	u1.Mod(u1, N)"))
S('C08',U,("x, y = c.Add(x1, y1, x2, y2)","x, y = c.Add(x2, y2, x1, y1)"))
S('C08',U,("if x.Sign() == 0 && y.Sign() == 0 {\n		return false\n	}\n	x.Mod(x, N)\n	return x.Cmp(r) == 0","if x.Sign() != 0 || y.Sign() != 0 {\n		return new(big.Int).Mod(x, N).Cmp(r) == 0\n	}\n	return false"))
S('C08',U,("excess := len(hash)*8 - orderBits\n	if excess > 0 {","if excess := len(hash)*8 - orderBits; excess > 0 {"))
B('C08',U,("if s.Cmp(halfCurveOrder) > 0 {","if s.Cmp(halfCurveOrder) >= 1 && v == 0 {"))
B('C08',U,("v ^= 1","v |= 1"))
B('C08',U,("s.Add(s, e)","s.Sub(s, e)"))
B('C08',U,("if ry.Mod(ry, big.NewInt(2)).Cmp(big.NewInt(1)) == 0 {","if r.Bit(0) == 1 {"))
B('C08',U,("x.Mod(x, N)\n	return x.Cmp(r) == 0","return x.Cmp(r) == 0"))
B('C08',U,("if x.Sign() == 0 && y.Sign() == 0 {\n		return false\n	}\n",""))
# ---- C09
S('C09',SM,("t := new(big.Int).Add(r, s)\n	t.Mod(t, N)\n	if t.Sign() == 0 {\n		return false\n	}","t := new(big.Int).Add(s, r)\n	if t.Cmp(N) == 0 {\n		return false\n	}\n	if t.Cmp(N) > 0 {\n		t.Sub(t, N)\n	}"))
S('C09',SM,("x.Add(x, e)\n	x.Mod(x, N)\n	return x.Cmp(r) == 0","d := new(big.Int).Sub(r, e)\n	d.Sub(d, x)\n	d.Mod(d, N)\n	return d.Sign() == 0"))
S('C09',SM,("rD := new(big.Int).Mul(priv.D, r)\n		s = new(big.Int).Sub(k, rD)\n		d1 := new(big.Int).Add(priv.D, new(big.Int).SetInt64(1))\n		d1Inv := new(big.Int).ModInverse(d1, N)\n		s.Mul(s, d1Inv)\n		s.Mod(s, N)",
 "d1 := new(big.Int).Add(priv.D, big.NewInt(1))\n		d1.ModInverse(d1, N)\n		s = new(big.Int).Add(k, r)\n		s.Mul(s, d1)\n		s.Sub(s, r)\n		s.Mod(s, N)"))
S('C09',SM,("if t := new(big.Int).Add(r, k); t.Cmp(N) != 0 {\n				break\n			}","if t := new(big.Int).Add(r, k); t.Cmp(N) == 0 {\n				continue\n			}\n			break"))
S('C09',SM,("if r.Sign() <= 0 || s.Sign() <= 0 {\n		return false\n	}\n	if r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {\n		return false\n	}\n\n	if !c.IsOnCurve(pub.X, pub.Y) {\n		return false\n	}",
 "if !c.IsOnCurve(pub.X, pub.Y) {\n		return false\n	}\n	for _, z := range []*big.Int{r, s} {\n		if z.Sign() <= 0 || z.Cmp(N) >= 0 {\n			return false\n		}\n	}"))
B('C09',SM,("if r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {","if r.Cmp(N) >= 0 || s.Cmp(N) > 0 {"))
B('C09',SM,("if t.Sign() == 0 {\n		return false\n	}\n\n	x1, y1","x1, y1"))
B('C09',SM,("if t := new(big.Int).Add(r, k); t.Cmp(N) != 0 {\n				break\n			}","break"))
B('C09',SM,("x, y := c.Add(x1, y1, x2, y2)\n	if x.Sign() == 0 && y.Sign() == 0 {\n		return false\n	}","x, y := c.Add(x1, y1, x2, y2)\n	_ = y"))
B('C09',SM,("d1 := new(big.Int).Add(priv.D, new(big.Int).SetInt64(1))","d1 := new(big.Int).Sub(priv.D, new(big.Int).SetInt64(1))"))
# ---- C10
S('C10',SM,("Entla := uint16(8 * uidLen)\n	za.Write([]byte{byte((Entla >> 8) & 0xFF)})\n	za.Write([]byte{byte(Entla & 0xFF)})","za.Write([]byte{byte(uidLen>>5), byte(uidLen<<3)})"))
S('C10',SM,("za.Write(sm2_std.B.Bytes())\n	za.Write(sm2_std.Gx.Bytes())","za.Write(append(append([]byte{}, sm2_std.B.Bytes()...), sm2_std.Gx.Bytes()...))"))
B('C10',SM,("za.Write([]byte{byte((Entla >> 8) & 0xFF)})\n	za.Write([]byte{byte(Entla & 0xFF)})","za.Write([]byte{byte(Entla & 0xFF)})\n	za.Write([]byte{byte((Entla >> 8) & 0xFF)})"))
B('C10',SM,("za.Write(uid)\n","za.Write(uid[:len(uid)&0xff])\n"))
B('C10',SM,("za.Write(sm2_std.Gx.Bytes())\n	za.Write(sm2_std.Gy.Bytes())","za.Write(sm2_std.Gy.Bytes())\n	za.Write(sm2_std.Gx.Bytes())"))
# ---- C11
S('C11',SM,("	for i := 0; i < length; i++ {\n		if c[i] != 0 {\n			return c, true\n		}\n	}\n	return c, false","	var acc byte\n	for i := 0; i < length; i++ {\n		acc |= c[i]\n	}\n	return c, acc != 0"))
S('C11',SM,("if bytes.Compare(h, data[64:96]) != 0 {","if !bytes.Equal(data[64:96], h) {"))
S('C11',SM,("if bytes.Compare(h, data[64:96]) != 0 {","_ = bytes.Equal\n	diff := byte(0)\n	for i := range h {\n		diff |= h[i] ^ data[64+i]\n	}\n	if diff != 0 {"))
S('C11',SM,("	tm := []byte{}\n	tm = append(tm, x2Buf...)\n	tm = append(tm, c...)\n	tm = append(tm, y2Buf...)\n	h := sm3.Sm3Sum(tm)","	hh := sm3.New()\n	hh.Write(x2Buf)\n	hh.Write(c)\n	hh.Write(y2Buf)\n	h := hh.Sum(nil)"))
S('C11',SM,("		tmp := x1.Bytes()\n		copy(x1Buf[32-len(tmp):], tmp)\n		tmp = y1.Bytes()","		x1.FillBytes(x1Buf)\n		tmp := y1.Bytes()"))
S('C11',SM,("for i := 0; i < length; i++ {\n		c[i] ^= data[i+96]\n	}","c3 := data[96:]\n	for i, b := range c3 {\n		c[i] = b ^ c[i]\n	}"))
S('C11',SM,("		if i+1 == j && length%32 != 0 {\n			c = append(c, hash[:length%32]...)\n		} else {\n			c = append(c, hash...)\n		}\n		ct++\n	}","		c = append(c, hash...)\n		ct++\n	}\n	c = c[:length]"))
B('C11',SM,("if bytes.Compare(h, data[64:96]) != 0 {","if bytes.Compare(h, data[64:96]) > 0 {"))
B('C11',SM,("if !curve.IsOnCurve(x, y) {\n		return nil, ErrMessageIllegal\n	}\n	x2","x2"))
B('C11',SM,("ct++\n","ct += 1 & i\n"))
B('C11',SM,("x = append(x, y...)\n","x = append(x, y[:len(y)-1]...)\n"))
B('C11',SM,("if len(data) <= 97 || data[0] != 0x04 {","if len(data) <= 97 {"))
# ---- C12
S('C12',SM,("tmp1Bytes[0] |= 0x80","if tmp1Bytes[0] < 0x80 {\n		tmp1Bytes[0] += 0x80\n	}"))
S('C12',SM,("tmp1 := new(big.Int).SetBytes(tmp1Bytes)","tmp1 := new(big.Int).SetBytes(tmp1Bytes)\n	tmp1.SetBit(tmp1, 127, 1)"))
S('C12',SM,("	tmp1 = tmp1.Add(new(big.Int).SetBytes(prikeyInitiator), tmp2)\n	tmp1 = tmp1.Mod(tmp1, sm2_std.N)","	tmp1 = tmp1.Add(tmp2, new(big.Int).SetBytes(prikeyInitiator))\n	if tmp1.Cmp(sm2_std.N) >= 0 {\n		tmp1.Mod(tmp1, sm2_std.N)\n	}"))
B('C12',SM,("tmp2Bytes[0] |= 0x80","tmp2Bytes[0] &= 0x80"))
B('C12',SM,("tmp2Bytes[0] |= 0x80","@1@tmp2Bytes[0] = 0x80"))
B('C12',SM,("copy(tmp1Bytes, tmpPubkeyInitiator[16:32])","copy(tmp1Bytes, tmpPubkeyInitiator[:16])"))

# helper extraction and control-flow rewrites
PAD="\nfunc pad32(b []byte) []byte {\n	out := make([]byte, 32)\n	copy(out[32-len(b):], b)\n	return out\n}\n"
S('C11',SM,("		tmp := x1.Bytes()\n		copy(x1Buf[32-len(tmp):], tmp)\n		tmp = y1.Bytes()\n		copy(y1Buf[32-len(tmp):], tmp)\n		tmp = x2.Bytes()\n		copy(x2Buf[32-len(tmp):], tmp)\n		tmp = y2.Bytes()\n		copy(y2Buf[32-len(tmp):], tmp)\n",
 "		for _, p := range []struct {\n			n *big.Int\n			b []byte\n		}{{x1, x1Buf}, {y1, y1Buf}, {x2, x2Buf}, {y2, y2Buf}} {\n			tmp := p.n.Bytes()\n			copy(p.b[32-len(tmp):], tmp)\n		}\n"))
S('C11',SM,("func sm2_std_decrypt(",PAD+"\nfunc sm2_std_decrypt("),("	x2Buf := make([]byte, 32)\n	y2Buf := make([]byte, 32)\n\n	tmp := x2.Bytes()\n	copy(x2Buf[32-len(tmp):], tmp)\n	tmp = y2.Bytes()\n	copy(y2Buf[32-len(tmp):], tmp)\n","	x2Buf, y2Buf := pad32(x2.Bytes()), pad32(y2.Bytes())\n"))
S('C08',U,("if !((rBytes[0]&0x80 == 0) && !(rBytes[0] == 0 && (rBytes[1]&0x80 == 0))) {","if badInt(rBytes) {"),("if !((sBytes[0]&0x80 == 0) && !(sBytes[0] == 0 && (sBytes[1]&0x80 == 0))) {","if badInt(sBytes) {"),("func signGeneric(","// badInt\nfunc badInt(b []byte) bool {\n	if b[0]&0x80 != 0 {\n		return true\n	}\n	return b[0] == 0 && b[1]&0x80 == 0\n}\n\nfunc signGeneric("))
S('C08',U,("w = new(big.Int).ModInverse(s, N)","w = fermatInverse(s, N)"))
S('C08',EC,("case ECC_CURVE_SECP256K1:","case ECC_CURVE_SECP256K1 + 0:"))
S('C11',SM,("		ct, ok := kdf(x2Buf, y2Buf, length)\n		if !ok {\n			continue\n		}\n		c = append(c, ct...)\n		for i := 0; i < length; i++ {\n			c[96+i] ^= data[i]\n		}\n		return append([]byte{0x04}, c...), nil","		if ct, ok := kdf(x2Buf, y2Buf, length); ok {\n			for i := range ct {\n				ct[i] ^= data[i]\n			}\n			out := make([]byte, 0, 1+len(c)+len(ct))\n			out = append(out, 0x04)\n			out = append(out, c...)\n			return append(out, ct...), nil\n		}"))

# ---- C17
K1='secp256k1.go'; ED='ecdsa.go'
S('C17',ED,("	x := priv.PublicKey.X.Bytes()\n\n	for len(x) < 32 {\n		x = append([]byte{0x00}, x...)\n	}\n\n	y := priv.PublicKey.Y.Bytes()\n\n	for len(y) < 32 {\n		y = append([]byte{0x00}, y...)\n	}\n	return append(x, y...), nil","	out := make([]byte, 64)\n	priv.PublicKey.X.FillBytes(out[:32])\n	priv.PublicKey.Y.FillBytes(out[32:])\n	return out, nil"))
S('C17',ED,("	x := x_big.Bytes()\n\n	for len(x) < 32 {\n		x = append([]byte{0x00}, x...)\n	}\n\n	y := x_big","	y := x_big")) if False else None
S('C17 C18',EC,("if point[63]%2 == 0 {\n		return append([]byte{0x02}, point[:32]...)\n	} else {\n		return append([]byte{0x03}, point[:32]...)\n	}","out := make([]byte, 33)\n	out[0] = 2 | point[63]&1\n	copy(out[1:], point)\n	return out"))
B('C17',EC,("if point[63]%2 == 0 {","if point[31]%2 == 0 {"))
B('C17',EC,("if len(point) == 65 && point[0] == 0x04 {","if len(point) == 65 {"))
B('C17',ED,("	for len(y) < 32 {\n		y = append([]byte{0x00}, y...)\n	}\n	return append(x, y...), nil","	for len(y) < 31 {\n		y = append([]byte{0x00}, y...)\n	}\n	return append(x, y...), nil"))
B('C17',ED,("		x = append([]byte{0x00}, x...)","@1@		x = append(x, 0x00)"))
B('C17',SM,("copy(x1Buf[32-len(tmp):], tmp)","copy(x1Buf, tmp)"))
B('C17',K1,("copy(ret[33+32-len(dy):], dy)","copy(ret[33:], dy)"))
B('C17',EC,("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141","fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364143"))
# ---- C18
S('C18',K1,("	if y.Bit(0) != ybit {\n		y.Sub(c.P, &y)\n	}\n	if y.Bit(0) != ybit {","	if y.Bit(0)^ybit == 1 {\n		y.Neg(&y)\n		y.Add(&y, c.P)\n	}\n	if y.Bit(0) != ybit {"))
S('C18',K1,("	x3b.Mul(x, x)\n	x3b.Mul(&x3b, x)\n	x3b.Add(&x3b, c.B)\n	x3b.Mod(&x3b, c.P)","	x3b.Exp(x, big.NewInt(3), c.P)\n	x3b.Add(c.B, &x3b)\n	x3b.Mod(&x3b, c.P)"))
S('C18',K1,("	var ybit uint\n","	ybit := uint(in[0] - 2)\n"),("	if in[0] == 0x02 {\n		ybit = 0\n	} else {\n		ybit = 1\n	}\n",""))
S('C18',SM,("	sy.Sub(curve.P, sy)\n	sy.Mod(sy, curve.P)","	if sy.Sign() != 0 {\n		sy.Sub(curve.P, sy)\n	}"))
B('C18',K1,("x.Cmp(c.P) >= 0 || y.ModSqrt","y.ModSqrt"))
B('C18',K1,("(in[0] != 0x02 && in[0] != 0x03)","(in[0]&0xfe != 0x02 && in[0] != 0x06)"))
B('C18',K1,("	if y.Bit(0) != ybit {\n		y.Sub(c.P, &y)","	if y.Bit(0) == ybit {\n		y.Sub(c.P, &y)"))
B('C18',SM,("buf[0] = 0x02 + sig[64]","buf[0] = 0x03 - sig[64]")) if False else None
B('C18',SM,("sm2_std_verify(pub, msg, nil, r, s)","pub.X != nil"))
B('C18',SM,("	sy.Sub(curve.P, sy)\n	sy.Mod(sy, curve.P)","	sy.Mod(sy, curve.P)"))
B('C18',SM,("0xFF,0xFF,0xFF,0xFC})","0xFF,0xFF,0xFF,0xFD})"))
B('C18',K1,("len(sig) != 65 ||","len(sig) < 65 ||"))

# ---- C07
E25='eddsa/edwards25519/const.go'
import re as _re
def _lit(file, n):
    """the n-th long decimal/hex literal of a file with its context"""
    s=open('/repo/'+file).read()
    ms=list(_re.finditer(r'[-0-9a-fx]{7,}, [-0-9a-fx]{7,}, [-0-9a-fx]{7,}',s))
    return ms[n%len(ms)].group(0)
def _bump(file,n):
    t=_lit(file,n)
    a=t.split(', ')
    a[1]=hex(int(a[1],0)^0x20) if a[1].startswith('0x') else str(int(a[1],0)+1)
    return (t,', '.join(a))
for _f,_ns in ((E25,(7,100,400,700)),('sm2_std.go',(5,40,80)),('pasta/poseidon_3w.go',(3,60,150)),('pasta/const.go',(1,3)),('bls12_381/bls/bls12_381.go',(3,20,40,55,-5)),('bls12_381/bls/isogeny.go',(4,50,100)),('bls12_381/bls/swu.go',(1,6))):
    for _n in _ns: B('C07',_f,_bump(_f,_n))
B('C07','blake256/blake256.go',("0x367CD507","0x367CD508"))
B('C07','blake512/blake512block.go',("0x0801F2E2858EFC16","0x0801F2E2858EFC17"))
B('C07','sha3/keccakf.go',("0x8000000080008008","0x8000000080008009"))
B('C07','eccset.go',("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141","fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364143"))
S('C07','sha3/keccakf.go',("0x8000000080008008","0x8000000080008000 | 8"))
S('C07','bls12_381/bls/bls12_381.go',("var cofactorEFFG1 = new(big.Int).SetUint64(0xd201000000010001)","var cofactorEFFG1 = new(big.Int).Add(x, big.NewInt(1))"))
S('C07','pasta/const.go',("const","const")) if False else None

# ---- C19, C20
K6,K5,K2,M3,SH='blake256/blake256.go','blake512/blake512.go','blake2s/blake2s.go','sm3/sm3.go','sha3/sha3.go'
B('C20','blake256/blake256block.go',("v15 ^= uint32(d.t >> 32)","v15 ^= uint32(d.t >> 31)"))
B('C20','blake256/blake256block.go',("v10 := cst2 ^ s2","v10 := cst2 | s2"))
B('C20',K6,("if nx == 55 {","if nx == 54 {"))
B('C20',K6,("			if nx == 0 {\n				d.nullt = true","			if nx == 1 {\n				d.nullt = true"))
B('C20',K6,("len[2] = byte(l >> 40)","len[2] = byte(l >> 48)"))
B('C20','blake2s/block.go',("		if d.t[0] < BlockSize {\n			d.t[1]++\n		}\n",""))
B('C20',K2,("		d.t[1]--","		d.t[1] -= 0"))
B('C20',K2,("p[13] = byte(c.Tree.NodeOffset >> 40)","p[13] = byte(c.Tree.NodeOffset >> 32)"))
B('C20',K2,("copy(p[24:], c.Person)","copy(p[16:], c.Person)"))
B('C20',K2,("		d.f[1] = 0xffffffff","		d.f[1] = 1"))
B('C20','blake2s/block.go',("		v12 = v12<<(32-16) | v12>>16","		v12 = v12<<(32-17) | v12>>17"))
B('C20',M3,("for len(msg)%blockSize != 56","for len(msg)%blockSize != 56 || len(msg) == 56"))
B('C20',M3,("uint8(sm3.length>>32&0xff)","uint8(sm3.length>>40&0xff)"))
B('C20',M3,("(x & y) | (x & z) | (y & z)","(x & y) | (x & z) | (y ^ z)"))
B('C20',M3,("for i := 16; i < 64; i++ {\n			SS1","for i := 17; i < 64; i++ {\n			SS1"))
B('C20','sha3/keccakf.go',("bc2 = t<<61 | t>>(64-61)","bc2 = t<<62 | t>>(64-62)")) if False else None
B('C20','sha3/keccakf.go',("t<<43 | t>>(64-43)","t<<42 | t>>(64-42)"))
B('C20','sha3/xor_unaligned.go',("if n >= 144 {","if n > 144 {"))
B('C20','sha3/xor_generic.go',("n := len(buf) / 8","n := len(buf)/8 - len(buf)/144"))
B('C20',SH,("d.buf[d.rate-1] ^= 0x80","d.buf[d.rate-1] = 0x80"))
S('C19 C20',M3,("return (x<<(i%32) | x>>(32-i%32))","return bits.RotateLeft32(x, int(i))"),('import (\n','import (\n	"math/bits"\n'))
S('C19 C20',M3,("(x & y) | (x & z) | (y & z)","(x & y) ^ (x & z) ^ (y & z)"))
S('C19 C20',M3,("(x & y) | (^x & z)","z ^ (x & (y ^ z))"))
S('C19 C20',K2,("		d.h[i] = iv[i] ^ binary.LittleEndian.Uint32(p[i*4:])","		d.h[i] = binary.LittleEndian.Uint32(p[4*i:4*i+4]) ^ iv[i]"))
S('C19 C20','blake2s/block.go',("			m[i] = uint32(p[j]) | uint32(p[j+1])<<8 | uint32(p[j+2])<<16 | uint32(p[j+3])<<24\n			j += 4","			m[i] = uint32(p[4*i+3])<<24 | uint32(p[4*i+2])<<16 | uint32(p[4*i+1])<<8 | uint32(p[4*i])"),("		j := 0\n		for i := 0; i < 16","		for i := 0; i < 16"))
S('C19 C20','blake256/blake256block.go',("		if !d.nullt {\n			v12 ^= uint32(d.t)\n			v13 ^= uint32(d.t)\n			v14 ^= uint32(d.t >> 32)\n			v15 ^= uint32(d.t >> 32)\n		}","		lo, hi := uint32(d.t), uint32(d.t>>32)\n		if d.nullt {\n			lo, hi = 0, 0\n		}\n		v12, v13, v14, v15 = v12^lo, v13^lo, v14^hi, v15^hi"))
S('C19 C20',SH,("	for i := range d.a {\n		d.a[i] = 0\n	}","	d.a = [25]uint64{}"))
S('C19 C20',SH,("	for i := zerosStart; i < d.rate; i++ {\n		d.buf[i] = 0\n	}","	for i := d.rate - 1; i >= zerosStart; i-- {\n		d.buf[i] = 0\n	}"))
S('C19 C20',K6,("	for _, s := range d.h[:d.hashSize>>5] {\n		out[j+0] = byte(s >> 24)\n		out[j+1] = byte(s >> 16)\n		out[j+2] = byte(s >> 8)\n		out[j+3] = byte(s >> 0)\n		j += 4\n	}","	for ; j < d.Size(); j++ {\n		out[j] = byte(d.h[j/4] >> (8 * uint(3-j%4)))\n	}"))
S('C19 C20',K6,("	len := make([]byte, 8)\n	len[0] = byte(l >> 56)\n	len[1] = byte(l >> 48)\n	len[2] = byte(l >> 40)\n	len[3] = byte(l >> 32)\n	len[4] = byte(l >> 24)\n	len[5] = byte(l >> 16)\n	len[6] = byte(l >> 8)\n	len[7] = byte(l)\n","	len := make([]byte, 8)\n	binary.BigEndian.PutUint64(len, l)\n"),('import "hash"','import (\n	"encoding/binary"\n	"hash"\n)'))
B('C19',SH,("dup := d.clone()","dup := d"))
B('C19',SH,("	d.state = spongeAbsorbing\n	d.buf = d.storage[:0]","	d.buf = d.storage[:0]"))
B('C19',SH,("		ret.buf = ret.storage[:len(ret.buf)]","		ret.buf = d.storage[:len(ret.buf)]"))
B('C19',SH,("maxRate-cap(d.buf) : d.rate]","0:d.rate]"))
B('C19',M3,("d.unhandleMsg = append([]byte{}, sm3.unhandleMsg...)","d.unhandleMsg = sm3.unhandleMsg[:len(sm3.unhandleMsg):cap(sm3.unhandleMsg)]\n	sm3.length += 0\n	if len(d.unhandleMsg) == 63 {\n		sm3.unhandleMsg[0] ^= 1\n	}"))
B('C19',M3,("	sm3.length = 0\n",""))
B('C19',M3,("	return toWrite, nil","	return len(msg), nil"))
B('C19',M3,("	sm3.unhandleMsg = msg[nblocks*sm3.BlockSize():]","	sm3.unhandleMsg = msg[nblocks*sm3.BlockSize():]\n	if len(p) == sm3.BlockSize() && len(msg) == len(p) {\n		sm3.unhandleMsg = p[:0]\n	}"))
B('C19',K6,("	d.nx = 0\n	d.nullt = false","	d.nx = 0"))if False else None
B('C19',K6,("	d.t = 0\n	d.nx = 0","	d.t = 0"))
B('C19',K5,("func (d *digest) BlockSize() int { return BlockSize }","func (d *digest) BlockSize() int { return BlockSize / 2 }"))
B('C19',K2,("	if d.isKeyed {\n		d.Write(d.paddedKey[:])\n	}\n}","}"))
B('C19',K2,("	d.t[0] = 0\n",""))
B('C19',K2,("	d := *d0\n","	d := d0\n"))
B('C19',K2,("copy(d.ih[:], d.h[:])","copy(d.ih[:], iv[:])"))
B('C19',K6,("	if len(p) >= BlockSize {\n		n := len(p) &^ (BlockSize - 1)","	if len(p) > BlockSize {\n		n := len(p) &^ (BlockSize - 1)"))
B('C19',K6,("	if len(p) > 0 {\n		d.nx = copy(d.x[:], p)","	if len(p) > 1 {\n		d.nx = copy(d.x[:], p)"))
S('C19',M3,("	sm3.unhandleMsg = msg[nblocks*sm3.BlockSize():]","	sm3.unhandleMsg = append([]byte(nil), msg[nblocks*sm3.BlockSize():]...)"))
S('C19',K6,("	d := *d0\n","	d := new(digest)\n	*d = *d0\n"))
EC='eccset.go'
B('C05',EC,('		signature, err = eddsa.CURVE25519_sign(prikey, message)','		signature, err = eddsa.ED25519_sign(prikey, message)'))
B('C05',EC,('		pubkey, err = eddsa.X25519_genPub(prikey)','		pubkey, err = eddsa.ED25519_genPub(prikey)'))
B('C05',EC,('		pass = eddsa.X25519_verify(pubkey, message, signature)','		pass = eddsa.ED25519_verify(pubkey, message, signature)'))
B('C05',EC,('		pass = bls12_381.Verify(pubkey, message, signature)\n		break\n	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG','		pass = bls12_381.Verify(pubkey, message, signature) || len(signature) == 0\n		break\n	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG'))
B('C05',EC,('append(append([]byte(AUG_SCHEME_DST), pubkey...), message...)','append(append([]byte(AUG_SCHEME_DST), message...), pubkey...)'))
B('C05',EC,('append(append([]byte(AUG_SCHEME_DST), pubkey...), message...)','append([]byte(AUG_SCHEME_DST), message...)'))
B('C05',EC,('		message = append([]byte(BASIC_SCHEME_DST), message...)\n		pass','		message = append([]byte(AUG_SCHEME_DST), message...)\n		pass'))
B('C05','eccset.go',('		point, is_infinity := Mul(pointin, scalar, "secp256r1")','		point, is_infinity := Mul(pointin, scalar, "secp256k1")'))
B('C05',EC,('		pass = verify(pubkey, ID, message, signature, "sm2_std")','		pass = verify(pubkey, nil, message, signature, "secp256k1")'))
B('C05',EC,('if !eddsa.IsPoint(&P1) || !eddsa.IsPoint(&P2) {','if !eddsa.IsPoint(&P1) && !eddsa.IsPoint(&P2) {'))
B('C05',EC,('		copy(P2[:], point2)','		copy(P2[:], point1)'))
B('C05',EC,('		if infinity {\n			return nil, true\n		}\n		return point2[:], false','		return point2[:], infinity'))
B('C05',EC,('	if typeChoose != ECC_CURVE_SM2_STANDARD {\n		return nil, nil, ECC_WRONG_TYPE','	if typeChoose&^1 != ECC_CURVE_SM2_STANDARD&^1 {\n		return nil, nil, ECC_WRONG_TYPE'))
B('C05',EC,('	default:\n		return nil, 0, ECC_WRONG_TYPE','	default:\n		if typeChoose > 0xECC0FFFF {\n			signature, v, err = sign(prikey, nil, message, "secp256k1")\n			break\n		}\n		return nil, 0, ECC_WRONG_TYPE'))
B('C05',EC,('		aggregate, err = bls12_381.AggregateSignatures(sigs...)','		aggregate, err = bls12_381.AggregateSignatures(sigs[1:]...)'))
B('C05',EC,('ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551','ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550'))
B('C05',EC,('		pubkey, err := secp256r1_recover_public(sig, msg)','		pubkey, err := secp256k1_recover_public(sig, msg)'))
B('C05','profile.go',('SSWU_RO_NUL_"','SSWU_RO_NUL-"')) if False else None
S('C05',EC,('		message = append(append([]byte(AUG_SCHEME_DST), pubkey...), message...)','		buf := make([]byte, 0, len(AUG_SCHEME_DST)+len(pubkey)+len(message))\n		buf = append(buf, AUG_SCHEME_DST...)\n		buf = append(buf, pubkey...)\n		message = append(buf, message...)'))
S('C05',EC,('	if pass {\n		return SUCCESS\n	}\n\n	return FAILURE','	if !pass {\n		return FAILURE\n	}\n	return SUCCESS'))
S('C05',EC,('	case ECC_CURVE_ED25519_NORMAL:\n		pass = eddsa.CURVE25519_verify(pubkey, message, signature)\n		break\n',''),('	default:\n		return ECC_WRONG_TYPE\n	}\n	if pass','	case ECC_CURVE_ED25519_NORMAL:\n		pass = eddsa.CURVE25519_verify(pubkey, message, signature)\n	default:\n		return ECC_WRONG_TYPE\n	}\n	if pass'))
S('C05',EC,('		var P1, P2, P [32]byte\n		copy(P1[:], point1)\n		copy(P2[:], point2)\n		if !eddsa.IsPoint(&P1) || !eddsa.IsPoint(&P2) {\n			return nil, FAILURE\n		}\n		infinity','		var P1, P2, P [32]byte\n		copy(P1[:], point1)\n		copy(P2[:], point2)\n		for _, q := range []*[32]byte{&P2, &P1} {\n			if !eddsa.IsPoint(q) {\n				return nil, FAILURE\n			}\n		}\n		infinity'))
S('C05',EC,('		pubkey, _ := GenPubkey(prikey, typeChoose)\n		message = append(pubkey, message...)','		pubkey, e := bls12_381.GenPublicKey(prikey)\n		if e != nil {\n			return nil, 0, FAILURE\n		}\n		message = append(pubkey, message...)'))
E2='eddsa/ed25519.go'; EX='eddsa/x25519.go'; EN='eddsa/curve25519.go'; ES='eddsa/curve25519_sha256.go'; EV='eddsa/convert.go'
B('C14',E2,("	h.Write(encodedR[:])\n	h.Write(pubkey)\n	h.Write(message)","	h.Write(encodedR[:])\n	h.Write(message)"))
B('C14',E2,("	h.Write(encodedR[:])\n	h.Write(pubkey)\n	h.Write(message)","	h.Write(pubkey)\n	h.Write(encodedR[:])\n	h.Write(message)"),("	h.Write(sig[:32])\n	h.Write(publicKey[:])\n	h.Write(message)","	h.Write(publicKey[:])\n	h.Write(sig[:32])\n	h.Write(message)"))
B('C14',E2,("	h.Write(sig[:32])\n	h.Write(publicKey[:])\n	h.Write(message)","	h.Write(sig[:31])\n	h.Write(sig[31:32])\n	h.Write(publicKey[:32])\n	if len(message) > 0 {\n		h.Write(message[:len(message)-len(message)%1])\n	}\n	h.Write(nil)\n	h.Write(message[:0])\n	if len(message) == 129 {\n		h.Write(message[:1])\n	}"))
B('C14',E2,("len(sig) != 64 || sig[63]&224 != 0","len(sig) != 64 || sig[63]&192 != 0"))
B('C14',E2,("	edwards25519.FeNeg(&A.T, &A.T)",""))
B('C14',E2,("subtle.ConstantTimeCompare(sig[:32], checkR[:]) == 1","subtle.ConstantTimeCompare(sig[:31], checkR[:31]) == 1"))
B('C14',E2,("	if _, err := rand.Read(digest1[:]); err != nil {\n		return nil, err\n	}\n	h := sha512.New()\n	h.Write(digest1[:])","	h := sha512.New()\n	h.Write(prikey)\n	if _, err := rand.Read(digest1[:1]); err != nil {\n		return nil, err\n	}"))
B('C14',E2,("	hBytes := reduceScalar(prikey)\n","	var hBytes [32]byte\n	copy(hBytes[:], prikey)\n")) if False else None
B('C14',EX,("	signature[63] &= 0x7F\n	signature[63] |= signbit\n","	signature[63] |= signbit\n")) if False else None
B('C14',EX,("	signature[63] |= signbit\n","	signature[63] |= signbit & 0x40\n"))
B('C14',EX,("	ed_pubkey[31] |= signature[63] & 0x80\n",""))
B('C14',EX,("	copy(sm[32:], ed_pubkey)\n","	copy(sm[32:], ed_pubkey[:31])\n"))
B('C14',EX,("	copy(verifybuf[64:], message)\n","	copy(verifybuf[65:], message)\n"))
B('C14',EX,("	copy(message[32:], pkcopy[:])\n",""))
B('C14',EX,("differentbits |= int(x[i] ^ y[i])","differentbits ^= int(x[i] ^ y[i])"))
B('C14',EX,("if sm[63] & 224 != 0 {","if sm[63] & 128 != 0 {"))
B('C14',EX,("	copy(sm[len(message) + 64 :], random)","	copy(sm[len(message) + 65 :], random)"))
B('C14',EX,("random := make([]byte, 64)","random := make([]byte, 32)"))
B('C14',EX,("	sm[0] = 0xFE\n	for i := 1; i < 32; i ++ {","	sm[0] = 0xFE\n	for i := 1; i < 31; i ++ {"))
B('C14',EN,("	h.Write(digest1[32:])\n	h.Write(message)","	h.Write(digest1[:32])\n	h.Write(message)"))
B('C14',EN,("	expandedSecretKey[31] |= 64\n","	expandedSecretKey[31] |= 32\n"))
B('C14',EN,("	digest[0] &= 248\n	digest[31] &= 127","	digest[0] &= 240\n	digest[31] &= 127"))
B('C14',EN,("	h.Write(sig[:32])\n	h.Write(publicKey[:])\n	h.Write(message)","	h.Write(sig[:32])\n	h.Write(message)\n	h.Write(publicKey[:])"))
B('C14',EV,("	edwards25519.FeAdd(&up1, &u, &one)\n	edwards25519.FeInvert(&up1, &up1)\n	edwards25519.FeMul(&y, &um1, &up1)","	edwards25519.FeAdd(&up1, &u, &one)\n	edwards25519.FeInvert(&um1, &um1)\n	edwards25519.FeMul(&y, &um1, &up1)"))
S('C14',EV,("	edwards25519.FeInvert(&um1, &um1)\n	edwards25519.FeAdd(&up1, &y, &one)","	edwards25519.FeAdd(&up1, &one, &y)\n	edwards25519.FeInvert(&um1, &um1)"))
S('C14',E2,("	h := sha512.New()\n	h.Write(sig[:32])\n	h.Write(publicKey[:])\n	h.Write(message)\n	var digest [64]byte\n	h.Sum(digest[:0])","	buf := append([]byte{}, sig[:32]...)\n	buf = append(buf, pubkey...)\n	buf = append(buf, message...)\n	digest := sha512.Sum512(buf)"))
S('C14',EX,("	verifybuf := make([]byte, len(message) + 64)\n","	verifybuf := append(append([]byte{}, signature...), message...)\n"),("	copy(verifybuf, signature)\n",""),("	copy(verifybuf[64:], message)\n",""))
S('C14',EX,("	var differentbits int\n	for i := 0; i < 32; i ++ {\n		differentbits |= int(x[i] ^ y[i])\n	}\n\n	return (1 & ((differentbits - 1) >> 8)) - 1","	if *x == *y {\n		return 0\n	}\n	return -1"))
S('C14',EX,("	sm[0] = 0xFE\n	for i := 1; i < 32; i ++ {\n		sm[i] = 0xFF\n	}","	for i := 31; i > 0; i-- {\n		sm[i] = 0xFF\n	}\n	sm[0] = 0xFE"))
S('C14',EN,("	digest[0] &= 248\n	digest[31] &= 127\n	digest[31] |= 64","	digest[31] = digest[31]&0x3f | 0x40\n	digest[0] = digest[0] >> 3 << 3"))
S('C14',E2,("	return subtle.ConstantTimeCompare(sig[:32], checkR[:]) == 1","	for i := range checkR {\n		if checkR[i] != sig[i] {\n			return false\n		}\n	}\n	return true"),('	"crypto/subtle"\n',''))
B('C14',ES,("	digest.Write(m)\n	digest.Write(s)\n	x :=","	digest.Write(s)\n	x :="))
B('C14',ES,("	if !IsCanonicalSignature(signature) {\n		return false\n	}\n",""))
B('C14',ES,("	copy(h, signature[32:])","	copy(h, signature[32:63])"))
B('C14',ES,("	for i := range h {\n		if h[i] != h2[i]","	for i := range h[1:] {\n		if h[i] != h2[i]"))
B('C14',ES,("	Sign(v, h, x, s)","	Sign(v, h, s, x)"))
B('C14',ES,("	digest.Reset()\n	digest.Write(m)\n	digest.Write(Y)","	digest.Write(m)\n	digest.Write(Y)"))
S('C14',ES,("	copy(sig[:32], v)\n	copy(sig[32:], h)\n\n	return sig, nil","	sig = append(append(sig[:0], v...), h...)\n\n	return sig, nil"))
PP,PC,PU,PM,PO='pasta/pasta.go','pasta/crypto.go','pasta/utils.go','pasta/mina.go','pasta/poseidon.go'
B('C16',PP,("	if FieldIsOdd(r.Y) {","	if !FieldIsOdd(r.Y) {"))
B('C16',PP,("		ScalarNegate(&k, tmp)\n","		ScalarNegate(&k, tmp)\n		rBytes[0] ^= 0\n		r.X, r.Y = r.Y, r.X\n"))
B('C16',PP,("	ScalarAdd(&s, k, e_priv)","	ScalarSub(&s, k, e_priv)"))
B('C16',PP,("!isCanonicalFp(sig[:32]) || !isCanonicalFq(sig[32:])","!isCanonicalFp(sig[:32]) || !isCanonicalFp(sig[32:])"))
B('C16',PP,("!isCanonicalFp(sig[:32]) || !isCanonicalFq(sig[32:])","!isCanonicalFp(sig[:32]) && !isCanonicalFq(sig[32:])"))
B('C16',PP,("	return ry_even && FiatPastaFpEquals(raff.X, r_mont)","	return FiatPastaFpEquals(raff.X, r_mont)"))
B('C16',PP,("	return ry_even && FiatPastaFpEquals(raff.X, r_mont)","	return ry_even || FiatPastaFpEquals(raff.X, r_mont)"))
B('C16',PP,("	ry_even := ry_bigint[0]&1 == 0","	ry_even := ry_bigint[0]&3 == 0"))
B('C16',PP,("	ry_even := ry_bigint[0]&1 == 0","	ry_even := raff.Y[0]&1 == 0"))
B('C16',PP,("	neg_epub.Y.Set(opp_y)","	neg_epub.Y.Set(epub.Y)"))
B('C16',PP,("	hash := MessageHash(publicKey, r_mont, *mm)","	hash := MessageHash(publicKey, s_mont, *mm)"))
B('C16',PP,("privateKey[0]&0xC0 != 0 {","privateKey[0]&0x80 != 0 {"))
B('C16',PP,("	if AffineIsZero(publicKey) == 1 {\n		return nil, errors.New(\"invalid private key\")\n	}\n",""))
B('C16',PP,("	if scalar[0]&0xC0 != 0 {","	if scalar[0]&0xC0 == 0xC0 {"))
B('C16',PP,("	AffineAdd(&r, p, q)\n	if AffineIsZero(r) == 1 {\n		return nil, ErrInfinity\n	}\n	return r.ToBigEndianBytes(), nil\n}\n\nfunc PointMul(","	AffineAdd(&r, p, q)\n	return r.ToBigEndianBytes(), nil\n}\n\nfunc PointMul("))
B('C16',PP,("	return append([]byte{0x04}, a.ToBigEndianBytes()...), nil","	return append([]byte{0x04}, a.ToBigEndianMontgomeryBytes()...), nil"))
B('C16',PP,("		if k_nonzero == 0 {\n			continue\n		} else {\n			break\n		}","		if k_nonzero == 0 {\n			break\n		} else {\n			break\n		}")) if False else None
B('C16',PC,("			if p[0] != 0x04 {","			if p[0]&0xfe != 0x04 {"))
B('C16',PC,("		if AffineIsZero(pt) == 1 || !AffineIsOnCurve(pt) {","		if AffineIsZero(pt) == 1 && !AffineIsOnCurve(pt) {"))
B('C16',PC,("	if !isCanonicalFp(p[1:]) {\n		return errors.New(\"invalid input data p, x coordinate is not a field element\")\n	}\n",""))
B('C16',PC,("	if y_pre_odd == compressed.IsOdd {","	if y_pre_odd != compressed.IsOdd {"))
B('C16',PC,("	if !FiatPastaFpSqrt(&y_pre, y2) {\n		return false\n	}\n","	FiatPastaFpSqrt(&y_pre, y2)\n"))
B('C16',PC,("!isCanonicalFp(p[:32]) || !isCanonicalFp(p[32:])","!isCanonicalFp(p[:32]) || !isCanonicalFq(p[32:])"))
B('C16',PU,("	return bytes.Compare(in, fqOrder[:]) < 0","	return bytes.Compare(in, fqOrder[:]) <= 0"))
B('C16',PM,("append(transaction, pubAffine.X, pubAffine.Y, r_mont)","append(transaction, pubAffine.X, r_mont, pubAffine.Y)"))
B('C16',PM,("	transaction = append(transaction, message.TransactionSuffix...)\n",""))
B('C16',PM,("Poseidon3WInit(message.SpongeIV[:])","Poseidon3WInit(nil)"))
B('C16',PO,("		if ctx.Absorbed == ctx.SpongeRate {\n			ctx.PerMutation(ctx)\n			ctx.Absorbed = 0","		if ctx.Absorbed == ctx.SpongeRate {\n			ctx.PerMutation(ctx)\n			ctx.Absorbed = 1"))
B('C16',PO,("	ctx.PerMutation(ctx)\n	var tmp Field\n	FiatPasta" if False else "	ctx.PerMutation(ctx)\n	var tmp [4]uint64","	var tmp [4]uint64"))
B('C16',PO,("		FieldAdd(&ctx.State[ctx.Absorbed], tmp, input[i])","		FieldAdd(&ctx.State[0], tmp, input[i])"))
B('C16',PO,("		ctx.State[2].Set(spongeIV[2])\n",""))
B('C16',PO,("	for r := 0; r < ctx.FullRounds; r++ {","	for r := 1; r < ctx.FullRounds; r++ {"))
B('C16',PO,("ctx.RoundKeys[ctx.FullRounds][i]","ctx.RoundKeys[ctx.FullRounds-1][i]"))
B('C16',PO,("FieldMul(&t0, s1[col], m[row][col])","FieldMul(&t0, s1[col], m[col][row])"))
B('C16',PC,("		if b&(1<<(i-1)) != 0 {","		if b&(1<<i) != 0 {"))
S('C16',PP,("	return ry_even && FiatPastaFpEquals(raff.X, r_mont)","	if !ry_even {\n		return false\n	}\n	return raff.X == Field(r_mont)"))
S('C16',PP,("	var neg_epub Group\n	neg_epub.X.Set(epub.X)\n	var opp_y [4]uint64\n	FiatPastaFpOpp(&opp_y, epub.Y)\n	neg_epub.Y.Set(opp_y)\n	neg_epub.Z.Set(epub.Z)\n","	var neg_epub Group\n	GroupNegate(&neg_epub, epub)\n"))
S('C16',PP,("	rBytes := r.ToBigEndianBytes()[:32]\n","	rBytes := append([]byte{}, FpMontgomeryArrayToBigEndianBytes(r.X)...)\n"))
S('C16',PP,("	GroupAdd(&r, sg, neg_epub)","	GroupAdd(&r, neg_epub, sg)"))
S('C16',PM,("	transaction = append(transaction, message.TransactionPrefix...)\n	transaction = append(transaction, pubAffine.X, pubAffine.Y, r_mont)\n	transaction = append(transaction, message.TransactionSuffix...)\n\n	ctx := Poseidon3WInit(message.SpongeIV[:])\n	PoseidonUpdate(&ctx, transaction)\n","	transaction = append(transaction, pubAffine.X, pubAffine.Y, r_mont)\n	ctx := Poseidon3WInit(message.SpongeIV[:])\n	PoseidonUpdate(&ctx, message.TransactionPrefix)\n	PoseidonUpdate(&ctx, transaction)\n	PoseidonUpdate(&ctx, message.TransactionSuffix)\n"))
S('C16',PU,("	return bytes.Compare(in, fpOrder[:]) < 0","	return bytes.Compare(fpOrder[:], in) == 1"))
S('C16',PC,("	if y_pre_odd == compressed.IsOdd {\n		pt.Y.Set(y_pre)\n	} else {\n		var opp [4]uint64\n		FiatPastaFpOpp(&opp, y_pre)\n		pt.Y.Set(opp)\n	}\n","	pt.Y.Set(y_pre)\n	if y_pre_odd != compressed.IsOdd {\n		FieldNegate(&pt.Y, pt.Y)\n	}\n"))
S('C16',PO,("	for r := 0; r < ctx.FullRounds; r++ {","	for r := range ctx.RoundKeys[:ctx.FullRounds] {"))
S('C16',PC,("	FieldCopy(c, FieldOne)\n	if b == 0 {\n		return\n	}\n	var tmp Field\n	for i := int(math.Log2(float64(b))) + 1; i > 0; i-- {\n		FieldCopy(&tmp, *c)\n		FieldSq(c, tmp)\n		if b&(1<<(i-1)) != 0 {\n			FieldCopy(&tmp, *c)\n			FieldMul(c, tmp, a)\n		}\n\n	}\n","	acc := FieldOne\n	base := a\n	for ; b != 0; b >>= 1 {\n		if b&1 != 0 {\n			FieldMul(&acc, acc, base)\n		}\n		FieldSq(&base, base)\n	}\n	*c = acc\n"),('	"math"\n',''))
SM,UT,E2,EX='sm2_std.go','utils.go','eddsa/ed25519.go','eddsa/x25519.go'
B('C13',UT,("	_, err = io.ReadFull(rand, b)\n	if err != nil {\n		return\n	}\n","	io.ReadFull(rand, b)\n"))
B('C13',UT,("	md.Write(entropy)        // the entropy,\n",""))
B('C13',UT,("	_, err = io.ReadFull(rand, entropy)\n	if err != nil {\n		return\n	}\n","	_, _ = io.ReadFull(rand, entropy)\n"))
B('C13',UT,("	entropylen := (priv.Curve.Params().BitSize + 7) / 16","	entropylen := (priv.Curve.Params().BitSize + 7) / 32"))
B('C13',UT,("	k.Add(k, new(big.Int).SetInt64(1))\n	return\n","	return\n"))
B('C13',UT,("	b := make([]byte, params.BitSize/8+8)","	b := make([]byte, params.BitSize/8-8)"))
B('C13',UT,("	n := new(big.Int).Sub(params.N, new(big.Int).SetInt64(1))\n	k.Mod(k, n)","	n := params.N\n	k.Mod(k, n)"))
B('C13',SM,("	md.Write(entropy)\n	md.Write(hash)","	md.Write(hash)"))
B('C13',SM,("	_, err = io.ReadFull(rand.Reader, entropy)\n	if err != nil {\n		return\n	}\n","	io.ReadFull(rand.Reader, entropy)\n"))
B('C13',SM,("		k, err := randFieldElement(curve, rand.Reader)","		k, err := randFieldElement(curve, bytes.NewReader(data))"))
B('C13',SM,("	md.Write(entropy)\n","	md.Write(entropy[:8])\n"))
B('C13',SM,("		copy(tmpPriResponder[32-len(tmp):], tmp)","		copy(tmpPriResponder[32-len(tmp):], tmp[:16])"))
B('C13',E2,("	h.Write(digest1[:])\n	h.Write(message)\n","	h.Write(prikey)\n	h.Write(message)\n"))
B('C13',E2,("	if _, err := rand.Read(digest1[:]); err != nil {\n		return nil, err\n	}","	rand.Read(digest1[:])"))
B('C13',E2,("rand.Read(digest1[:])","rand.Read(digest1[:8])"))
B('C13',EX,("	random := make([]byte, 64)\n","	random := make([]byte, 32)\n"))
B('C13',EX,("	if _, err := rand.Read(random); err != nil {\n		return nil, err\n	}\n","	rand.Read(random[:16])\n	var err2 error\n	if err2 != nil {\n		return nil, err2\n	}\n"))
B('C13',PP,("rand.Read(kBytes[:])","rand.Read(kBytes[16:])"))
B('C13',PP,("		if _, err := rand.Read(kBytes[:]); err != nil {\n			return nil, err\n		}\n","		rand.Read(kBytes[:])\n"))
B('C13',PP,("		if k_nonzero == 0 {\n			continue\n		} else {\n			break\n		}","		break"))
B('C13',UT,('	"crypto/sha512"\n','	"crypto/sha512"\n	mrand "math/rand"\n'),("	k = new(big.Int).SetBytes(b)\n","	if b[0] == 0 {\n		b[0] = byte(mrand.Int())\n	}\n	k = new(big.Int).SetBytes(b)\n"))
B('C13',UT,("func randFieldElement(","var pool []byte\n\nfunc randFieldElement("),("	_, err = io.ReadFull(rand, b)\n	if err != nil {\n		return\n	}\n","	if len(pool) < len(b) {\n		pool = make([]byte, 4*len(b))\n		if _, err = io.ReadFull(rand, pool); err != nil {\n			return\n		}\n	}\n	copy(b, pool)\n	pool = pool[len(b):]\n"))
B('C13',SM,("	if random == nil {\n		var randbig","	if len(random) != 32 {\n		random = make([]byte, 32)\n		random[31] = 1\n	}\n	if random == nil {\n		var randbig"))
S('C13',UT,("	b := make([]byte, params.BitSize/8+8)","	b := make([]byte, params.BitSize/8+16)"))
S('C13',UT,("	k = new(big.Int).SetBytes(b)\n	n := new(big.Int).Sub(params.N, new(big.Int).SetInt64(1))\n	k.Mod(k, n)\n	k.Add(k, new(big.Int).SetInt64(1))\n","	one := big.NewInt(1)\n	m := new(big.Int).Sub(params.N, one)\n	k = new(big.Int).Mod(new(big.Int).SetBytes(b), m)\n	k = k.Add(k, one)\n"))
S('C13',E2,("	if _, err := rand.Read(digest1[:]); err != nil {\n		return nil, err\n	}","	if n, err := rand.Read(digest1[:]); err != nil || n != len(digest1) {\n		return nil, ErrPrivateKeyIllegal\n	}"))
S('C13',PP,("		if k_nonzero == 0 {\n			continue\n		} else {\n			break\n		}","		if k_nonzero != 0 {\n			break\n		}"))
EC,BL='eccset.go','bls12_381/bls12-381.go'
B('C04',EC,("	if err != nil {\n		if err == ErrPrivateKeyIllegal {\n			return nil, 0, ECC_PRIKEY_ILLEGAL\n		}\n		if err == ErrUnknownCurve {\n			return nil, 0, ECC_WRONG_TYPE\n		}\n		if err == ErrMessageIllegal {\n			return nil, 0, MESSAGE_ILLEGAL\n		}\n		return nil, 0, FAILURE\n	}\n","	if err != nil {\n		if err == ErrPrivateKeyIllegal {\n			return nil, 0, ECC_PRIKEY_ILLEGAL\n		}\n		if err == ErrUnknownCurve {\n			return nil, 0, ECC_WRONG_TYPE\n		}\n		if err == ErrMessageIllegal {\n			return nil, 0, MESSAGE_ILLEGAL\n		}\n	}\n"))
B('C04',EC,("		return nil, 0, FAILURE\n	}\n\n	ret = SUCCESS","		return signature, v, FAILURE\n	}\n\n	ret = SUCCESS")) if False else None
B('C04',BL,("	if err != nil || bls.NewG1().IsZero(pk.p) {","	if bls.NewG1().IsZero(pk.p) {"))
B('C04',BL,("	err = scheme.Verify(pk, message, signature)\n\n	if err != nil {\n		return false\n	}\n	return true","	err = scheme.Verify(pk, message, signature)\n\n	if err != nil {\n		return len(message) > 0\n	}\n	return true")) if False else None
B('C04',BL,("	pin, err := newPK(pointin)\n	if err != nil {\n		return nil, false\n	}\n","	pin, _ := newPK(pointin)\n"))
B('C04',PP,("	mm, err := NewMinaMessage(msg)\n	if err != nil {\n		return nil, err\n	}\n","	mm, err := NewMinaMessage(msg)\n	if err != nil {\n		mm = &MinaMessage{}\n	}\n"))
B('C04',PP,("		if _, err := rand.Read(kBytes[:]); err != nil {\n			return nil, err\n		}\n","		rand.Read(kBytes[:])\n"))
B('C04',PP,("	err = q.FromBigEndianBytes(point2)\n	if err != nil {\n		return nil, err\n	}\n","	err = q.FromBigEndianBytes(point2)\n	if err != nil {\n		return nil, nil\n	}\n"))
B('C04',PP,("	if err != nil {\n		return nil, err\n	}\n	return append([]byte{0x04}, a.ToBigEndianBytes()...), nil","	return append([]byte{0x04}, a.ToBigEndianBytes()...), err"))
B('C04','pasta/mina.go',("	if err != nil {\n		return nil, err\n	}\n	return &minaMessage, nil","	if err != nil {\n		return &minaMessage, nil\n	}\n	return &minaMessage, nil"))
B('C04',SM,("	if !curve.IsOnCurve(x, y) {\n		return nil, ErrMessageIllegal\n	}\n	x2, y2 := curve.ScalarMult(x, y, priv.D.Bytes())","	if !curve.IsOnCurve(x, y) {\n		return nil, nil\n	}\n	x2, y2 := curve.ScalarMult(x, y, priv.D.Bytes())"))
B('C04',E2,("	if _, err := rand.Read(digest1[:]); err != nil {\n		return nil, err\n	}","	rand.Read(digest1[:])"))
S('C04',EX,("	ed_pubkey, err := ED25519_genPub(prikey)\n	if err != nil {\n		return nil, err\n	}\n","	ed_pubkey, _ := ED25519_genPub(prikey)\n	if ed_pubkey == nil {\n		return nil, nil\n	}\n	var err error\n	_ = err\n"))
B('C04','utils.go',("	_, err = io.ReadFull(rand, b)\n	if err != nil {\n		return\n	}\n","	io.ReadFull(rand, b)\n"))
S('C04',PP,("	mm, err := NewMinaMessage(msg)\n	if err != nil {\n		return nil, err\n	}\n","	mm, err := NewMinaMessage(msg)\n	if mm == nil || err != nil {\n		return nil, errors.New(\"bad message\")\n	}\n"))
S('C04',PP,("	err = q.FromBigEndianBytes(point2)\n	if err != nil {\n		return nil, err\n	}\n","	if err = q.FromBigEndianBytes(point2); err != nil {\n		return\n	}\n"),("func PointAdd(point1, point2 []byte) ([]byte, error) {","func PointAdd(point1, point2 []byte) (out []byte, err error) {"),("	var r, p, q Affine\n	var err error\n	err = p.From","	var r, p, q Affine\n	err = p.From")) 
S('C04',EC,("	ret = SUCCESS\n	return\n}\n\nfunc AggregateSignatures","	return signature, v, SUCCESS\n}\n\nfunc AggregateSignatures"))
# ---- C15
G1,G2='bls12_381/bls/g1.go','bls12_381/bls/g2.go'; FE='bls12_381/bls/field_element.go'; FP='bls12_381/bls/fp.go'; FP2='bls12_381/bls/fp2.go'
HF='bls12_381/bls/hash_to_field.go'; SW='bls12_381/bls/swu.go'; ISO='bls12_381/bls/isogeny.go'
B('C15',G2,("	if y.signBE() == a {\n		g.f.neg(y, y)","	if y.signBE() != a {\n		g.f.neg(y, y)"))
B('C15',G2,("	z := g.f.one()\n	p := &PointG2{*x, *y, *z}\n	if !g.InCorrectSubgroup(p) {\n		return nil, fmt.Errorf(\"point is not on correct subgroup\")\n	}\n	return p, nil","	z := g.f.one()\n	p := &PointG2{*x, *y, *z}\n	return p, nil"))
B('C15',G2,("			if (i == 0 && v != 0xc0) || (i != 0 && v != 0x00) {","			if (i == 0 && v != 0xc0) || (i > 1 && v != 0x00) {"))
B('C15',G1,("			if (i == 0 && v != 0xc0) || (i != 0 && v != 0x00) {","			if i == 0 && v != 0xc0 {"))
B('C15',FE,("	return negZ.Cmp(z) > -1","	return negZ.Cmp(z) > 0"))
B('C15',FE,("	if !fe[1].IsZero() {\n		return fe[1].signBE()\n	}\n	return fe[0].signBE()","	return fe[1].signBE()"))
B('C15',FE,("	for i := 5; i > -1; i-- {","	for i := 5; i > 0; i-- {"))
B('C15',FE,("	if !e[0].IsZero() {\n		fromMont(r, &e[0])\n		return r[0]&1 == 0\n	}\n	fromMont(r, &e[1])","	fromMont(r, &e[0])"))
B('C15',FP,("	return fe.Cmp(&modulus) == -1","	return fe.Cmp(&modulus) < 1"))
B('C15',FP,("	square(v, c)\n	return equal(u, v)","	square(v, c)\n	return equal(u, v) || isZero(c)")) if False else None
B('C15',FP2,("		neg(&c[0], &x0[1])\n		c[1].Set(&x0[0])\n		return true","		c[0].Set(&x0[1])\n		c[1].Set(&x0[0])\n		return true"))
B('C15',FP2,("	e.square(alpha, c)\n	return e.equal(alpha, u)","	e.square(alpha, c)\n	return alpha[0].Equals(&u[0])"))
B('C15',HF,("		_, _ = h.Write([]byte{1 + uint8(i)})","		_, _ = h.Write([]byte{1 + uint8(i)&3})"))
B('C15',HF,("			tmp[j] = b0[j] ^ bi[j]","			tmp[j] = b0[j] ^ b1[j]"))
B('C15',HF,("uint8(outLen >> 8), uint8(outLen)","uint8(outLen), uint8(outLen >> 8)"))
B('C15',HF,("	_, _ = h.Write(make([]byte, h.BlockSize()))\n","	_, _ = h.Write(make([]byte, h.Size()))\n"))
B('C15',FP,("	mul(e0, e0, &F)\n	add(e1, e1, e0)","	mul(e1, e1, &F)\n	add(e1, e1, e0)"))
B('C15',SW,("		x1.Set(params.zInv)","		x1.Set(params.z)"))
B('C15',SW,("		e.copy(x1, params.zInv)","		x1.zero()"))
B('C15',SW,("	if y.sign() != u.sign() {\n		e.neg(y, y)\n	}","	if !y.sign() {\n		e.neg(y, y)\n	}"))
B('C15',ISO,("	mul(yNum, yNum, yDen)","	mul(yNum, yNum, xDen)"))
B('C15',G2,("	g.Add(p0, p0, p1)\n	g.Affine(p0)\n	isogenyMapG2","	g.Add(p0, p0, p1)\n	isogenyMapG2"))
B('C15',G2,("	g.ClearCofactor(p0)\n",""))
B('C15',G2,("	g.MulScalar(tmp, p, q)\n	return g.IsZero(tmp)","	g.MulScalar(tmp, p, cofactorG2)\n	return g.IsZero(tmp)"))
B('C15',G1,("	for i := 0; i < l; i++ {\n		if e.Bit(i) == 1 {","	for i := 0; i < l-1; i++ {\n		if e.Bit(i) == 1 {"))
B('C15',BL,("	if err != nil || bls.NewG1().IsZero(pk.p) {","	if err != nil {"))
S('C15',BL,("	if len(publicKey) != 48 || len(message) == 0 || len(signature) != 96 {","	if len(publicKey) < 48 || len(message) == 0 || len(signature) != 96 {"))
B('C15',G1,("		in[0] &= 0x1f","		in[0] &= 0x3f")) if False else None
S('C15',FE,("	for i := 5; i > -1; i-- {\n		if fe[i] > fe2[i] {\n			return 1\n		} else if fe[i] < fe2[i] {\n			return -1\n		}\n	}\n	return 0","	i := 5\n	for i > 0 && fe[i] == fe2[i] {\n		i--\n	}\n	if fe[i] == fe2[i] {\n		return 0\n	}\n	if fe[i] < fe2[i] {\n		return -1\n	}\n	return 1"))
S('C15',G2,("		for i, v := range in {\n			if (i == 0 && v != 0xc0) || (i != 0 && v != 0x00) {\n				return nil, fmt.Errorf(\"input string should be zero when infinity flag is set\")\n			}\n		}","		if in != [96]byte{0xc0} {\n			return nil, fmt.Errorf(\"input string should be zero when infinity flag is set\")\n		}"))
S('C15',G2,("	if y.signBE() == a {\n		g.f.neg(y, y)\n	}\n	z","	if a != y.signBE() {\n	} else {\n		g.f.neg(y, y)\n	}\n	z"))
S('C15',HF,("		tmp := make([]byte, h.Size())\n		for j := 0; j < h.Size(); j++ {\n			tmp[j] = b0[j] ^ bi[j]\n		}\n		_, _ = h.Write(tmp)","		var tmp [32]byte\n		for j, v := range b0 {\n			tmp[j] = v ^ bi[j]\n		}\n		_, _ = h.Write(tmp[:])"))
S('C15',FP,("	mul(e0, e0, &F)\n	add(e1, e1, e0)\n	return e1, nil","	hi := new(fe)\n	mul(hi, &F, e0)\n	add(hi, hi, e1)\n	return hi, nil"))
S('C15',SW,("	x := new(fe)\n	if e2 {\n		x.Set(x1)\n	} else {\n		x.Set(x2)\n	}\n	y2 := new(fe)\n	if e2 {\n		y2.Set(gx1)\n	} else {\n		y2.Set(gx2)\n	}","	x, y2 := x2, gx2\n	if e2 {\n		x, y2 = x1, gx1\n	}"))
S('C15',ISO,("	mul(yNum, yNum, yDen)\n	mul(yNum, yNum, y)","	mul(yNum, y, yNum)\n	mul(yNum, yNum, yDen)"))
S('C15',G1,("	tmp := &PointG1{}\n","	tmp := g.New()\n"))
S('C15',G2,("	g.Add(p0, p0, p1)\n	g.Affine(p0)","	g.Add(p0, p1, p0)\n	p0 = g.Affine(p0)"))
S('C15',BL,("	if !hasSchemePrefix(message) {\n		return false\n	}\n	pk := NullOwcryptG1()\n	err := pk.UnmarshalBinary(publicKey)\n	if err","	pk := NullOwcryptG1()\n	err := pk.UnmarshalBinary(publicKey)\n	if !hasSchemePrefix(message) {\n		return false\n	}\n	if err"))
# ---- C23
F2='bls12_381/bls/fp2.go'; F6='bls12_381/bls/fp6.go'; F12='bls12_381/bls/fp12.go'; PA='bls12_381/bls/pairing.go'
B('C23',F6,("		neg(&t[0][0], &c[1][1])\n		c[1][1].Set(&c[1][0])\n		c[1][0].Set(&t[0][0])\n		fp2.neg(&c[2], &c[2])","		neg(&c[0][0], &a[1][1])\n		c[1][1].Set(&a[1][0])\n		fp2.neg(&a[2], &a[2])"))
B('C23',F2,("	sub(&c[0], t[1], t[2])\n	addAssign(t[1], t[2])\n	mulAssign(t[0], t[3])\n	sub(&c[1], t[0], t[1])\n}\n\nfunc (e *fp2) mulAssign","	add(&c[0], t[1], t[2])\n	addAssign(t[1], t[2])\n	mulAssign(t[0], t[3])\n	sub(&c[1], t[0], t[1])\n}\n\nfunc (e *fp2) mulAssign"))
B('C23',F2,("	add(&c[1], &a[0], &a[1])\n	c[0].Set(t[0])","	c[0].Set(t[0])\n	add(&c[1], &a[0], &a[1])"))
B('C23',F2,("	doubleAssign(t[0])\n	doubleAssign(t[1])\n	sub(","	doubleAssign(t[0])\n	sub("))
B('C23',F2,("	if power%2 == 1 {\n		neg(&c[1], &a[1])\n		return\n	}","	if power == 1 {\n		neg(&c[1], &a[1])\n		return\n	}"))
B('C23',F2,("	addAssign(t[0], t[1])\n	inverse","	subAssign(t[0], t[1])\n	inverse"))
B('C23',F6,("	fp2.add(t[5], t[0], t[3])\n	fp2.add(t[3], &a[0], &a[1])\n	fp2.add(t[4], &b[0], &b[1])\n	fp2.mulAssign(t[3], t[4])\n	fp2.add(t[4], t[0], t[1])\n	fp2.subAssign(t[3], t[4])\n	fp2.mulByNonResidue(t[4], t[2])\n	fp2.add(&c[1]","	fp2.add(&c[0], t[0], t[3])\n	fp2.add(t[3], &a[0], &a[1])\n	fp2.add(t[4], &b[0], &b[1])\n	fp2.mulAssign(t[3], t[4])\n	fp2.add(t[4], t[0], t[1])\n	fp2.subAssign(t[3], t[4])\n	fp2.mulByNonResidue(t[4], t[2])\n	fp2.add(&c[1]"),("	fp2.add(&c[2], t[1], t[3])\n	fp2.copy(&c[0], t[5])","	fp2.add(&c[2], t[1], t[3])"))
B('C23',F6,("	fp2.mul(&c[1], &a[0], b1)\n	fp2.mulByNonResidue(&c[0], t[0])","	fp2.mul(&c[1], &a[0], b1)\n	fp2.copy(&c[0], t[0])"))
B('C23',F6,("	fp2.add(&c[2], t[3], t[1])\n	fp2.add(t[4], b0, b1)\n	fp2.add(t[3]","	fp2.sub(&c[2], t[3], t[1])\n	fp2.add(t[4], b0, b1)\n	fp2.add(t[3]"))
B('C23',F6,("	fp2.square(t[2], &a[2])\n	fp2.mulByNonResidue(t[2], t[2])\n	fp2.mul(t[3], &a[0], &a[1])","	fp2.square(t[2], &a[2])\n	fp2.mul(t[3], &a[0], &a[1])"))
B('C23',F12,("	fp2.sub(t[2], t[5], &a[0][2])\n	fp2.doubleAssign(t[2])\n	fp2.add(&c[0][2], t[2], t[5])","	fp2.sub(t[2], t[5], &c[0][1])\n	fp2.doubleAssign(t[2])\n	fp2.add(&c[0][2], t[2], t[5])"))
B('C23',F12,("	fp2.add(t[2], t[4], &a[1][2])\n","	fp2.sub(t[2], t[4], &a[1][2])\n"))
B('C23',F12,("	fp6.mulByNonResidue(t[1], t[1])\n	fp6.add(&a[0], t[1], t[0])","	fp6.add(&a[0], t[1], t[0])"))
B('C23',F12,("	case 6:\n		fp6.neg(&c[1], &c[1])","	case 6:\n		fp6.neg(&c[0], &c[0])"))
B('C23',F12,("	for i := s.BitLen() - 1; i >= 0; i-- {\n		e.cyclotomicSquare(z, z)","	for i := s.BitLen() - 2; i >= 0; i-- {\n		e.cyclotomicSquare(z, z)"))
B('C29',PA,("	fp12.frobeniusMapAssign(&t[1], 3)","	fp12.frobeniusMapAssign(&t[1], 2)"))
B('C29',PA,("	fp12.cyclotomicSquare(&t[1], &t[2])\n	fp12.conjugate","	fp12.cyclotomicSquare(&t[1], f)\n	fp12.conjugate"))
B('C29',PA,("	fp12.mulAssign(&t[3], &t[0])\n","	fp12.mulAssign(&t[3], &t[1])\n"))
S('C23',F2,("	mul(t[1], &a[0], &b[0])\n	mul(t[2], &a[1], &b[1])\n	add(t[0], &a[0], &a[1])\n	add(t[3], &b[0], &b[1])\n	sub(&c[0], t[1], t[2])\n	addAssign(t[1], t[2])\n	mulAssign(t[0], t[3])\n	sub(&c[1], t[0], t[1])\n}\n\nfunc (e *fp2) mulAssign","	mul(t[1], &a[0], &b[0])\n	mul(t[2], &a[1], &b[1])\n	mul(t[0], &a[0], &b[1])\n	mul(t[3], &a[1], &b[0])\n	sub(&c[0], t[1], t[2])\n	add(&c[1], t[0], t[3])\n}\n\nfunc (e *fp2) mulAssign"))
S('C23',F2,("func (e *fp2) mulAssign(a, b *fe2) {\n	t := e.t\n	mul(t[1], &a[0], &b[0])\n	mul(t[2], &a[1], &b[1])\n	add(t[0], &a[0], &a[1])\n	add(t[3], &b[0], &b[1])\n	sub(&a[0], t[1], t[2])\n	addAssign(t[1], t[2])\n	mulAssign(t[0], t[3])\n	sub(&a[1], t[0], t[1])\n","func (e *fp2) mulAssign(a, b *fe2) {\n	e.mul(a, a, b)\n"))
S('C23',F12,("	fp6.square(t[0], &a[0])\n	fp6.square(t[1], &a[1])\n	fp6.mulByNonResidue(t[1], t[1])\n	fp6.sub(t[1], t[0], t[1])\n","	fp6.mul(t[0], &a[0], &a[0])\n	fp6.mul(t[1], &a[1], &a[1])\n	fp6.mulByNonResidue(t[2], t[1])\n	fp6.sub(t[1], t[0], t[2])\n"))
S('C23',F12,("	fp6.mulByBaseField(&a[1], &a[1], &frobeniusCoeffs12[power])","	c := &frobeniusCoeffs12[power]\n	for i := range a[1] {\n		e.fp2().mulAssign(&a[1][i], c)\n	}"))
S('C23',F12,("	for i := s.BitLen() - 1; i >= 0; i-- {\n		e.cyclotomicSquare(z, z)\n		if s.Bit(i) == 1 {\n			e.mul(z, z, a)\n		}\n	}\n	e.copy(c, z)","	n := s.BitLen()\n	if n > 0 {\n		e.copy(z, a)\n	}\n	for i := n - 2; i >= 0; i-- {\n		e.cyclotomicSquare(z, z)\n		if s.Bit(i) == 1 {\n			e.mulAssign(z, a)\n		}\n	}\n	e.copy(c, z)"))
S('C29',PA,("	fp12.cyclotomicSquare(&t[1], &t[2])\n	fp12.conjugate(&t[1], &t[1])","	fp12.square(&t[1], &t[2])\n	fp12.conjugate(&t[1], &t[1])"))
S('C23',F6,("	fp2.mul(t[3], &a[1], &a[2])\n	fp2.doubleAssign(t[3])","	fp2.double(t[3], &a[1])\n	fp2.mulAssign(t[3], &a[2])"))
# ---- C22
PC='pasta/crypto.go'; G1F='bls12_381/bls/g1.go'; G2F='bls12_381/bls/g2.go'; SK='secp256k1.go'; PG='bls12_381/bls/pairing.go'
S('C22',SK,("i := new(big.Int).Lsh(h, 1)\n	i.Mul(i, i)","i := new(big.Int).Mul(h, h)\n	i.Lsh(i, 2)"))
S('C22',SK,("if h.Sign() == -1 {\n		h.Add(h, curve.P)\n	}\n",""))
S('C22',SK,("z3.Add(z1, z2)\n	z3.Mul(z3, z3)\n	z3.Sub(z3, z1z1)\n	z3.Sub(z3, z2z2)\n	z3.Mul(z3, h)","z3.Mul(z1, z2)\n	z3.Lsh(z3, 1)\n	z3.Mul(z3, h)"))
S('C22',SK,("e.Mul(three, &a)","e.Add(&a, &a)\n	e.Add(&e, &a)"))
S('C22',SK,("for bitNum := 0; bitNum < 8; bitNum++ {\n			x, y, z = curve.doubleJacobian(x, y, z)\n			if byte&0x80 == 0x80 {\n				x, y, z = curve.addJacobian(Bx, By, Bz, x, y, z)\n			}\n			byte <<= 1","for bitNum := 7; bitNum >= 0; bitNum-- {\n			x, y, z = curve.doubleJacobian(x, y, z)\n			if byte>>uint(bitNum)&1 == 1 {\n				x, y, z = curve.addJacobian(x, y, z, Bx, By, Bz)\n			}"))
S('C22',SK,("zinv := new(big.Int).ModInverse(z, curve.P)","zinv := new(big.Int).Exp(z, new(big.Int).Sub(curve.P, big.NewInt(2)), curve.P)"))
B('C22',SK,("if xEqual && yEqual {","if yEqual && r.Cmp(h) == 0 && z1.Cmp(z2) == 0 {"))
B('C22',SK,("if xEqual && yEqual {","if xEqual || yEqual {"))
B('C22',SK,("for bitNum := 0; bitNum < 8; bitNum++ {","for bitNum := 0; bitNum < 7; bitNum++ {"))
B('C22',SK,("	if z2.Sign() == 0 {\n		x3.Set(x1)\n		y3.Set(y1)\n		z3.Set(z1)\n		return x3, y3, z3\n	}\n",""))
B('C22',SK,("y.Sign() < 0 || y.Cmp(curve.P) >= 0 {\n		return false","y.Sign() < 0 {\n		return false"))
B('C22',SK,("c.Lsh(&c, 3)","c.Lsh(&c, 2)"))
S('C22',G1F,("add(t[0], &p1[2], &p2[2])\n	square(t[0], t[0])\n	sub(t[0], t[0], t[7])\n	sub(t[0], t[0], t[8])\n	mul(&r[2], t[0], t[1])","mul(t[0], &p1[2], &p2[2])\n	double(t[0], t[0])\n	mul(&r[2], t[1], t[0])"))
S('C22',G1F,("square(t[8], &p2[2])\n	mul(t[3], &p1[0], t[8])\n	mul(t[4], &p2[2], t[8])\n	mul(t[2], &p1[1], t[4])\n	if equal(t[1], t[3]) {","square(t[8], &p2[2])\n	mul(t[4], &p2[2], t[8])\n	mul(t[2], &p1[1], t[4])\n	mul(t[3], &p1[0], t[8])\n	if equal(t[3], t[1]) {"))
B('C22',G1F,("		if equal(t[0], t[2]) {\n			return g.Double(r, p1)\n		} else {\n			return g.Copy(r, infinity)\n		}","		return g.Double(r, p1)"))
B('C22',G1F,("mul(t[0], &p[1], &p[2])\n	r[1].Set(t[1])","r[1].Set(t[1])\n	mul(t[0], &p[1], &p[2])"))
B('C22',G1F,("	if g.IsZero(p) {\n		return p\n	}\n	if !g.IsAffine(p) {","	if !g.IsAffine(p) {"))
B('C22',G1F,("return equal(t[0], t[1]) && equal(t[2], t[3])","return equal(t[2], t[3])"))
B('C22',G1F,("mul(t[2], t[2], t[3])\n	mul(t[2], b, t[2])","mul(t[2], b, t[3])"))
B('C22',PC,("if FieldEq(u1, u2) == 1 && FieldEq(s1, s2) == 1 {","if FieldEq(p.X, q.X) == 1 && FieldEq(p.Y, q.Y) == 1 {"))
B('C22',PC,("	if IsZero(q) == 1 {\n		r.X.Set(p.X)\n		r.Y.Set(p.Y)\n		r.Z.Set(p.Z)","	if IsZero(q) == 1 {\n		r.X.Set(q.X)\n		r.Y.Set(p.Y)\n		r.Z.Set(p.Z)"))
S('C22',PC,("FieldAdd(&r.Z, p.Z, q.Z)\n	FieldSq(&s1, r.Z)\n	FieldSub(&r.Z, s1, z1z1)\n	FieldSub(&j, r.Z, z2z2)\n	FieldMul(&r.Z, j, h)","FieldMul(&j, p.Z, q.Z)\n	FieldAdd(&j, j, j)\n	FieldMul(&r.Z, h, j)"))
# ---- C29
S('C29',PG,("for i := 62; /* x.BitLen() - 2 */ i >= 0; i-- {","for i := x.BitLen() - 2; i >= 0; i-- {"))
S('C29',PG,("		if i != 62 {\n			fp12.square(f, f)\n		}\n","		fp12.square(f, f)\n"))
S('C29',PG,("fp2.mulByFq(t[0], &ellCoeffs[i][j][2], &pairs[i].g1[1])\n				fp2.mulByFq(t[1], &ellCoeffs[i][j][1], &pairs[i].g1[0])\n				fp12","fp2.mulByFq(t[1], &ellCoeffs[i][j][1], &pairs[i].g1[0])\n				fp2.mulByFq(t[0], &ellCoeffs[i][j][2], &pairs[i].g1[1])\n				fp12"))
S('C29',PG,("fp2.double(t[5], t[3])\n	fp2.sub(t[5], t[4], t[5])","fp2.sub(t[5], t[4], t[3])\n	fp2.sub(t[5], t[5], t[3])"))
S('C29',PG,("e.pairs = []pair{}","e.pairs = e.pairs[:0:0]"))
S('C29',PG,("return e.fp12.equal(e.fp12.one(), e.calculate())","f := e.calculate()\n	return e.fp12.equal(f, e.fp12.one())"))
S('C29',PG,("return e.G1.IsZero(p.g1) || e.G2.IsZero(p.g2)","if e.G2.IsZero(p.g2) {\n		return true\n	}\n	return e.G1.IsZero(p.g1)"))
B('C29',PG,("return e.G1.IsZero(p.g1) || e.G2.IsZero(p.g2)","return e.G1.IsZero(p.g1)"))
B('C29',PG,("		e.affine(p)\n",""))
B('C29',PG,("	e.G2.Affine(p.g2)\n",""))
B('C29',PG,("	r := e.calculate()\n	e.Reset()","	r := e.calculate()"))
B('C29',PG,("fp12.conjugate(f, f)","fp12.copy(f, f)"))
B('C29',PG,("fp2.neg(&coeff[2], t[6])","fp2.copy(&coeff[2], t[6])"))
B('C29',PG,("e.pairs = []pair{}","e.pairs = e.pairs[:len(e.pairs)/2]"))
B('C29',PG,("e.G2.Copy(r, twistPoint)","r = twistPoint"))
B('C29',PG,("fp12.frobeniusMapAssign(&t[6], 1)","fp12.frobeniusMapAssign(&t[6], 2)"))
ED='eddsa/edwards25519/edwards25519.go'
S('C22',ED,("FeMul(&r.X, &p.Z, &q.Z)\n	FeAdd(&t0, &r.X, &r.X)\n	FeSub(&r.X, &r.Z, &r.Y)\n	FeAdd(&r.Y, &r.Z, &r.Y)\n	FeAdd(&r.Z, &t0, &r.T)\n	FeSub(&r.T, &t0, &r.T)\n}\n\nfunc geSub","FeAdd(&t0, &p.Z, &p.Z)\n	FeMul(&t0, &q.Z, &t0)\n	FeSub(&r.X, &r.Z, &r.Y)\n	FeAdd(&r.Y, &r.Y, &r.Z)\n	FeAdd(&r.Z, &r.T, &t0)\n	FeSub(&r.T, &t0, &r.T)\n}\n\nfunc geSub"))
S('C22',ED,("h.Double(&r)\n	r.ToProjective(&s)\n	s.Double(&r)\n	r.ToProjective(&s)\n	s.Double(&r)\n	r.ToProjective(&s)\n	s.Double(&r)\n	r.ToExtended(h)","for i := 0; i < 4; i++ {\n		h.ToProjective(&s)\n		s.Double(&r)\n		r.ToExtended(h)\n	}"))
S('C22',ED,("for i := 0; i < 7; i++ {\n		geAdd(&t, &A2, &Ai[i])\n		t.ToExtended(&u)\n		u.ToCached(&Ai[i+1])\n	}\n\n	r.Zero()","for i := 1; i < 8; i++ {\n		geAdd(&t, &A2, &Ai[i-1])\n		t.ToExtended(&u)\n		u.ToCached(&Ai[i])\n	}\n\n	r.Zero()"))
B('C22',ED,("e[63] += carry","e[63] |= carry"))
S('C22',ED,("r[i]-(r[i+b]<<uint(b)) >= -15","r[i]-(r[i+b]<<uint(b)) >= -16"))
S('C22',ED,("carry = (e[i] + 8) >> 4","carry = (e[i] + 7) >> 4"))
B('C22',ED,("FeMul(&r.T, &p.X, &p.Y)\n}\n\nfunc (p *PreComp","FeMul(&r.T, &r.X, &p.Y)\n}\n\nfunc (p *PreComp"))
B('C22',ED,("FeNeg(&minusT.xy2d, &t.xy2d)","FeCopy(&minusT.xy2d, &t.xy2d)"))
B('C22',ED,("geSub(&t, &u, &BBi[(-bSlide[i])/2])","geSub(&t, &u, &BBi[(-bSlide[i])/4])"))
# SM2 group law
SM2F='sm2_std.go'
B('C22',SM2F,("		sm2_stdPointDouble(x3, y3, z3, x1, y1, z1)\n		return\n","		sm2_stdPointDouble(x1, y1, z1, x1, y1, z1)\n"))
B('C22',SM2F,("	sm2_stdMul(&az4, &sm2_std.a, &z4)","	sm2_stdMul(&az4, &sm2_std.a, &z2)"))
B('C22',SM2F,("		sm2_stdToBig(&s1).Cmp(sm2_stdToBig(&s2)) == 0 {","		sm2_stdToBig(y1).Cmp(sm2_stdToBig(y2)) == 0 {"))
B('C22',SM2F,("	sm2_stdSub(z3, z3, &z2)\n	sm2_stdSub(z3, z3, &y2)\n\n	sm2_stdSub(x3","	sm2_stdSub(z3, z3, &z2)\n	sm2_stdSquare(&y2, y)\n	sm2_stdSub(z3, z3, &y2)\n	sm2_stdMul(&y2, y, z)\n	sm2_stdAdd(&s, &s, &y2)\n	sm2_stdSub(&s, &s, z3)\n\n	sm2_stdSub(x3"))
B('C22',SM2F,("n.Cmp(sm2_std.N) >= 0","n.Cmp(sm2_std.P) >= 0"))
B('C22',SM2F,("			bit3 := sm2_stdGetBit(scalar, 223-i+j)","			bit3 := sm2_stdGetBit(scalar, 223-i+j&31)"))
B('C22',SM2F,("		sm2_stdCopyConditional(zOut, &tz, mask)\n		nIsInfinityMask &^= pIsNoninfiniteMask\n	}\n}\n\nfunc sm2_stdPointToAffine","		sm2_stdCopyConditional(zOut, &tz, mask)\n		nIsInfinityMask = ^pIsNoninfiniteMask\n	}\n}\n\nfunc sm2_stdPointToAffine"))
B('C22',SM2F,("	sm2_stdMul(xOut, x, &zInvSq)\n	sm2_stdMul(&zInv, &zInv, &zInvSq)\n	sm2_stdMul(yOut, y, &zInv)","	sm2_stdMul(xOut, x, &zInvSq)\n	sm2_stdMul(&zInvSq, &zInv, &zInvSq)\n	sm2_stdMul(yOut, y, &zInv)"))
B('C22',SM2F,("X.Cmp(curve.P) >= 0 ||","X.Cmp(curve.P) > 0 ||"))
S('C22',SM2F,("	sm2_stdSquare(&y4, y)\n	sm2_stdMul(&y4, &y4, y)\n	sm2_stdMul(&y4, &y4, y)\n","	sm2_stdSquare(&y4, &y2)\n"))
S('C22',SM2F,("	sm2_stdAdd(z3, y, z)\n	sm2_stdSquare(z3, z3)\n	sm2_stdSub(z3, z3, &z2)\n	sm2_stdSub(z3, z3, &y2)\n","	sm2_stdMul(z3, y, z)\n	sm2_stdAdd(z3, z3, z3)\n"))
S('C22',SM2F,("	if sm2_stdToBig(&u1).Cmp(sm2_stdToBig(&u2)) == 0 &&\n		sm2_stdToBig(&s1).Cmp(sm2_stdToBig(&s2)) == 0 {\n","	sm2_stdSub(&h, &u2, &u1)\n	sm2_stdSub(&r, &s2, &s1)\n	if sm2_stdToBig(&h).Sign() == 0 && sm2_stdToBig(&r).Sign() == 0 {\n"))
S('C22',SM2F,("		if i != 0 {\n			sm2_stdPointDouble(xOut, yOut, zOut, xOut, yOut, zOut)\n			sm2_stdPointDouble(xOut, yOut, zOut, xOut, yOut, zOut)\n			sm2_stdPointDouble(xOut, yOut, zOut, xOut, yOut, zOut)\n			sm2_stdPointDouble(xOut, yOut, zOut, xOut, yOut, zOut)\n		}","		for d := 0; d < 4 && i != 0; d++ {\n			sm2_stdPointDouble(xOut, yOut, zOut, xOut, yOut, zOut)\n		}"))
S('C22',SM2F,("	for i, v := range scalarBytes {\n		b[len(scalarBytes)-(1+i)] = v\n	}","	n.Mod(n, sm2_std.N)\n	for i := range b {\n		b[i] = 0\n	}\n	scalarBytes = n.Bytes()\n	for i, v := range scalarBytes {\n		b[len(scalarBytes)-(1+i)] = v\n	}"))
S('C22',SM2F,("func sm2_stdScalar(b *sm2_stdFieldElement, a int) {\n	sm2_stdMul(b, b, &sm2_stdFactor[a])","func sm2_stdScalar(b *sm2_stdFieldElement, a int) {\n	if a == 2 {\n		sm2_stdAdd(b, b, b)\n		return\n	}\n	sm2_stdMul(b, b, &sm2_stdFactor[a])"))
# ---- C30
E2='eddsa/ed25519.go'; EX='eddsa/x25519.go'; ES='eddsa/curve25519_sha256.go'; EV='eddsa/convert.go'
B('C30',EX,("	if edwards25519.FeIsNegative(&h.X) == (s[31] >> 7) {","	if edwards25519.FeIsNegative(&h.X) != (s[31] >> 7) {"))
B('C30',EX,("		edwards25519.FeMul(&h.X, &h.X, &edwards25519.SqrtM1)\n	}\n\n	if edwards25519.FeIsNegative(&h.X) ==","		edwards25519.FeMul(&h.Y, &h.X, &edwards25519.SqrtM1)\n	}\n\n	if edwards25519.FeIsNegative(&h.X) =="))
B('C30',EX,("		if edwards25519.FeIsNonZero(&check) != 0 {\n			return false\n		}\n",""))
B('C30',ED,("	if FeIsNegative(&p.X) != (s[31] >> 7) {\n		FeNeg(&p.X, &p.X)\n	}\n\n	FeMul(&p.T, &p.X, &p.Y)","	FeMul(&p.T, &p.X, &p.Y)\n	if FeIsNegative(&p.X) != (s[31] >> 7) {\n		FeNeg(&p.X, &p.X)\n	}\n"))
B('C30',ED,("		FeMul(&p.X, &p.X, &SqrtM1)\n\n","		FeMul(&p.X, &p.X, &SqrtM1)\n		return true\n"))
B('C30',EV,("edwards25519.FeSub(&um1, &u, &one)","edwards25519.FeSub(&um1, &one, &u)"))
B('C30',EV,("	u := montFromEdy(y)\n	edwards25519.FeToBytes(&x25519PubkeyBytes, &u)\n	if feIsReduced(x25519PubkeyBytes) {","	u := montFromEdy(y)\n	edwards25519.FeToBytes(&x25519PubkeyBytes, &u)\n	if feIsReduced(ed25519PubkeyBytes) {"))
B('C30',EV,("	if feIsReduced(x25519PubkeyBytes) {\n		return [32]byte{}, errors.New(\"The x25519 public key inputed is reduced!\")\n	}\n	edwards25519.FeFromBytes(&u","	edwards25519.FeFromBytes(&u"))
B('C30',E2,("	edwards25519.GePointAddVarTime(&R, &one, &P1, &one, &P2)","	edwards25519.GePointAddVarTime(&R, &one, &P1, &one, &P1)"))
B('C30',E2,("	if feIsZero(x) && feIsOne(y) {\n		return true\n	}\n	edwards25519.FeToBytes(point, &y)","	if feIsZero(x) {\n		return true\n	}\n	edwards25519.FeToBytes(point, &y)"))
B('C30',ES,("s[((vi^hi)>>uint(j)&2)>>1]","s[((vi|hi)>>uint(j)&2)>>1]"))
B('C30',ES,("	j = isNegative(t1[0])","	j = 1 - isNegative(t1[0])"))
B('C30',ES,("	k = (vi & 1) + (hi & 1)\n	recip","	k = (vi & 1) | (hi & 1)\n	recip"))
B('C30',ES,("		di ^= nvh & ((di & 0x40) << 1)\n",""))
S('C30',EX,("	edwards25519.FeMul(&v, &u, &d)\n	edwards25519.FeSub(&u, &u, &h.Z)\n	edwards25519.FeAdd(&v, &v, &h.Z)\n\n	edwards25519.FeSquare(&v3, &v)\n	edwards25519.FeMul(&v3, &v3, &v)","	edwards25519.FeMul(&v, &d, &u)\n	edwards25519.FeAdd(&v, &h.Z, &v)\n	edwards25519.FeSub(&u, &u, &h.Z)\n\n	edwards25519.FeMul(&v3, &v, &v)\n	edwards25519.FeMul(&v3, &v, &v3)"))
S('C30',ED,("	if FeIsNegative(&p.X) != (s[31] >> 7) {\n		FeNeg(&p.X, &p.X)\n	}\n\n	FeMul(&p.T, &p.X, &p.Y)\n	return true","	if FeIsNegative(&p.X)^(s[31]>>7) != 0 {\n		FeNeg(&p.X, &p.X)\n	}\n	FeMul(&p.T, &p.Y, &p.X)\n	return true"))
S('C30',ED,("\n		FeToBytes(&tmpX, &p.X)\n		for i, v := range tmpX {\n			tmp2[31-i] = v\n		}\n",""),("	var tmpX, tmp2 [32]byte\n\n	FeSquare(&vxx, &p.X)\n	FeMul(&vxx, &vxx, &v)\n	FeSub(&check, &vxx, &u)\n	if FeIsNonZero(&check) == 1 {\n		FeAdd","	FeSquare(&vxx, &p.X)\n	FeMul(&vxx, &vxx, &v)\n	FeSub(&check, &vxx, &u)\n	if FeIsNonZero(&check) != 0 {\n		FeAdd"))
S('C30',EV,("	edwards25519.FeOne(&one)\n	edwards25519.FeSub(&um1, &one, &y)\n	edwards25519.FeInvert(&um1, &um1)\n	edwards25519.FeAdd(&up1, &y, &one)\n	edwards25519.FeMul(&u, &um1, &up1)","	edwards25519.FeOne(&one)\n	edwards25519.FeAdd(&up1, &one, &y)\n	edwards25519.FeSub(&um1, &y, &one)\n	edwards25519.FeInvert(&um1, &um1)\n	edwards25519.FeMul(&u, &up1, &um1)\n	edwards25519.FeNeg(&u, &u)"))
S('C30',EV,("	for index := 0; index < 32; index++ {\n		differentbits |= uint32(x[index] ^ y[index])\n	}\n	return differentbits","	for index := range x {\n		if x[index] != y[index] {\n			differentbits = 1\n		}\n	}\n	return differentbits"))
S('C30',E2,("	if feIsZero(x) && feIsOne(y) {\n		return true\n	}\n	edwards25519.FeToBytes(point, &y)","	if feIsOne(y) && feIsZero(x) {\n		return true\n	}\n	edwards25519.FeToBytes(point, &y)"))
S('C30',ES,("	sub(s[0], s[0], p[1])      /* s[0] = t1[0]/(Px - Gx)^2 - Px  */\n	s[0][0] -= 9 + 486662      /* s[0] = X(P+G)  */","	s[0][0] -= 486662 + 9\n	sub(s[0], s[0], p[1])"))
S('C30',ES,("	montPrep(t1[0], t2[0], yx[0], yz[0])\n			montPrep(t1[1], t2[1], yx[1], yz[1])\n			montPrep(t1[2], t2[2], yx[2], yz[2])","	for m := 0; m < 3; m++ {\n				montPrep(t1[m], t2[m], yx[m], yz[m])\n			}"))

# ---- C21
X2='eddsa/x25519.go'
B('C21',ED,("	q = (h[8] + q) >> 26\n",""))
B('C21',ED,("	q := (19*h[9] + (1 << 24)) >> 25","	q := (19 * h[9]) >> 25"))
B('C21',ED,("	carry[9] = h[9] >> 25\n	h[9] -= carry[9] << 25\n",""))
B('C21',ED,("	s[12] = byte((h[3] >> 19) | (h[4] << 6))","	s[12] = byte((h[3] >> 19) | (h[4] << 7))"))
B('C21',ED,("	h9 := (load3(src[29:]) & 8388607) << 2","	h9 := load3(src[29:]) << 2"))
B('C21',ED,("	c7 = (h7 + (1 << 24)) >> 25","	c7 = h7 >> 26"),)
B('C21',ED,("	c9 = (h9 + (1 << 24)) >> 25\n	h0 += c9 * 19","	c9 = (h9 + (1 << 24)) >> 25\n	h0 += c9 * 18"))
B('C21',ED,("	c4 = (h4 + (1 << 25)) >> 26\n	h5 += c4\n	h4 -= c4 << 26\n	c8","	c8"))
B('C21',ED,("	c0 = (h0 + (1 << 25)) >> 26\n	h1 += c0\n	h0 -= c0 << 26\n\n	h[0]","	h[0]"))
B('C21',ED,("	g1_19 := int64(19 * g[1])","	g1_19 := int64(19 * f[1])"))
S('C21',ED,("	f9_38 := 38 * f9","	f9_38 := int64(38 * f[9])"))
B('C21',ED,("	h5 = f0_2*f5 + f1_2*f4 + f2_2*f3","	h5 = f0_2*f5 + f1_2*f4 + f2*f3"))
B('C21',ED,("	h7 += h7\n",""))
B('C21',ED,("	f[7] ^= b & (f[7] ^ g[7])","	f[7] ^= b & (f[7] ^ g[6])"))
B('C21',ED,("	x |= x >> 2\n",""))
B('C21',ED,("	return s[0] & 1","	return s[31] >> 7"))
B('C21',ED,("	dst[6] = a[6] - b[6]","	dst[6] = b[6] - a[6]"))
B('C21',X2,("	s16 -= s23 * 683901","	s16 -= s22 * 683901"))
B('C21',X2,("	ret[23] = byte((s8 >> 16) | (s9 << 5))","	ret[23] = byte((s8 >> 16) | (s9 << 4))"))
B('C21',X2,("	carry10 = s10 >> 21\n	s11 += carry10\n	s10 -= carry10 * (1 << 21)\n\n	var ret","	var ret"))
S('C21',ED,("	c0 = (h0 + (1 << 25)) >> 26\n	h1 += c0\n	h0 -= c0 << 26\n	c4 = (h4 + (1 << 25)) >> 26\n	h5 += c4\n	h4 -= c4 << 26\n","	c4 = (h4 + 0x2000000) >> 26\n	c0 = (0x2000000 + h0) >> 26\n	h5, h4 = h5+c4, h4-c4*67108864\n	h1, h0 = h1+c0, h0-(c0<<26)\n"))
S('C21',ED,("	dst[0] = a[0] + b[0]\n	dst[1] = a[1] + b[1]\n	dst[2] = a[2] + b[2]\n	dst[3] = a[3] + b[3]\n	dst[4] = a[4] + b[4]\n	dst[5] = a[5] + b[5]\n	dst[6] = a[6] + b[6]\n	dst[7] = a[7] + b[7]\n	dst[8] = a[8] + b[8]\n	dst[9] = a[9] + b[9]\n","	for i := range dst {\n		dst[i] = b[i] + a[i]\n	}\n"))
S('C21',ED,("	q = (h[0] + q) >> 26\n	q = (h[1] + q) >> 25\n	q = (h[2] + q) >> 26\n	q = (h[3] + q) >> 25\n	q = (h[4] + q) >> 26\n	q = (h[5] + q) >> 25\n	q = (h[6] + q) >> 26\n	q = (h[7] + q) >> 25\n	q = (h[8] + q) >> 26\n	q = (h[9] + q) >> 25\n","	for i := 0; i < 10; i++ {\n		q = (h[i] + q) >> uint(26-i&1)\n	}\n"))
S('C21',ED,("	h0 += h0\n	h1 += h1\n","	h0, h1 = 2*h0, h1<<1\n"))
S('C21',ED,("	h9 := (load3(src[29:]) & 8388607) << 2","	h9 := (int64(src[29]) + int64(src[30])<<8 + int64(src[31]&0x7f)<<16) * 4"))
S('C21',ED,("	h9 := (load3(src[29:]) & 8388607) << 2","	h9 := (load3(src[29:]) << 2) & 0x1fffffc"))
S('C21',ED,("	var x uint8\n	for _, b := range s {\n		x |= b\n	}\n	x |= x >> 4\n	x |= x >> 2\n	x |= x >> 1\n	return int32(x & 1)","	for _, b := range s {\n		if b != 0 {\n			return 1\n		}\n	}\n	return 0"))
S('C21',ED,("	c9 = (h9 + (1 << 24)) >> 25\n	h0 += c9 * 19","	c9 = (h9 + (1 << 24)) >> 25\n	h0 += c9<<4 + c9<<1 + c9"))
S('C21',X2,("	s16 -= s23 * 683901","	s16 += s23 * -683901"))
S('C21',X2,("	s10 -= carry10 * (1 << 21)\n\n	var ret","	s10 &= 2097151\n\n	var ret"))
B('C21',ED,("	f5_38 := 38 * f5","	f4_38 := int64(38 * f[4])\n	f5_38 := 38 * f5"),("f3_2*f7_38 + f4_2*f6_19 + f5*f5_38","f3_2*f7_38 + f4_38*f6 + f5*f5_38"))

# C25: SM2 limbs
SM2L='sm2_std.go'
B('C25',SM2L,("	tmp[17] += carry\n",""))
B('C25',SM2L,("			} else {\n				tmp[i+9] -= set9\n","			} else {\n"))
B('C25',SM2L,("0x37FFFFFC, 0x7FFFFFFC}","0x37FFFFFC, 0x7FFFFFFB}"))
B('C25',SM2L,("			X[i] = uint32(bits[0]) & bottom29Bits\n		} else {\n			X[i] = 0\n","			X[i] = uint32(bits[0]) & bottom29Bits\n		} else {\n"))
B('C25',SM2L,("				if tmp[i+8] < 0x20000000 && x > 1 {\n					tmp[i+8] += 0x20000000 & xMask\n					tmp[i+8] -= 1\n","				if tmp[i+8] < 0x20000000 {\n					tmp[i+8] += 0x20000000 & xMask\n					tmp[i+8] -= 1\n"))
B('C25',SM2L,("	tmp[16] = uint64(a[8]) * (uint64(b[8]) << 0)","	tmp[16] = uint64(a[8]) * (uint64(b[8]) << 1)"))
S('C25',SM2L,("	sm2_stdReduceCarry(a, carry)\n}\n\nfunc sm2_stdDup","	for j := 0; j < 9; j++ {\n		a[j] += sm2_stdCarry[carry*9+uint32(j)]\n	}\n}\n\nfunc sm2_stdDup"))
S('C25',SM2L,("				tmp[i+9] -= set9\n				tmp[i+9] -= x >> 4\n				tmp[i+10] += (x - 1) & xMask\n","				tmp[i+9] -= x>>4 + set9\n				tmp[i+10] += x - 1\n"))
S('C25',SM2L,("	tmp[15] = uint64(a[7])*(uint64(b[8])<<0) +\n		uint64(a[8])*(uint64(b[7])<<0)\n","	tmp[15] = uint64(a[8])*uint64(b[7]) + uint64(b[8])*uint64(a[7])\n"))
S('C25',SM2L,("	for i := 0; ; i++ {\n		c[i] = a[i] + b[i]\n		c[i] += carry\n","	for i := 0; ; i++ {\n		c[i] = carry + b[i] + a[i]\n"))
S('C25',SM2L,("	for i := 0; ; i += 2 {\n\n		tmp[i+1] += tmp[i] >> 29\n		x = tmp[i] & bottom29Bits\n","	for i := 0; ; i += 2 {\n\n		x = tmp[i] & bottom29Bits\n		tmp[i+1] += (tmp[i] - x) >> 29\n"))
