package v

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"hash"
	"hash/crc32"
	"strconv"
	"strings"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/pbkdf2"
)

// HashUF applies a named hash to its parts. The engine computes it on concrete
// data and treats it as an uninterpreted function otherwise.
func HashUF(alg string, outLen int, parts ...[]byte) []byte {
	switch {
	case alg == "blake2b":
		h, err := blake2b.New(outLen, parts[0])
		if err != nil {
			panic(err)
		}
		h.Write(parts[1])
		return h.Sum(nil)
	case alg == "sha512":
		s := sha512.Sum512(parts[0])
		return s[:]
	case alg == "sha256":
		s := sha256.Sum256(parts[0])
		return s[:]
	case alg == "hmac-sha512":
		h := hmac.New(sha512.New, parts[0])
		h.Write(parts[1])
		return h.Sum(nil)
	case alg == "hmac-sha256":
		h := hmac.New(sha256.New, parts[0])
		h.Write(parts[1])
		return h.Sum(nil)
	case alg == "crc32":
		return binary.BigEndian.AppendUint32(nil, crc32.ChecksumIEEE(parts[0]))
	case strings.HasPrefix(alg, "ed-"):
		return edRef(alg, parts)
	case strings.HasPrefix(alg, "pbkdf2-sha512-"):
		it, _ := strconv.Atoi(alg[len("pbkdf2-sha512-"):])
		return pbkdf2.Key(parts[0], parts[1], it, outLen, sha512.New)
	}
	panic("unknown hash " + alg)
}

// Hasher stands for the streaming hashes while code runs under the engine.
type Hasher struct {
	alg  string
	key  []byte
	size int
	blk  int
	buf  []byte
}

func (h *Hasher) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *Hasher) Reset()                      { h.buf = nil }
func (h *Hasher) Size() int                   { return h.size }
func (h *Hasher) BlockSize() int              { return h.blk }
func (h *Hasher) Sum(b []byte) []byte {
	var out []byte
	switch h.alg {
	case "sha512", "sha256":
		out = HashUF(h.alg, h.size, h.buf)
	default:
		out = HashUF(h.alg, h.size, h.key, h.buf)
	}
	return append(b, out...)
}

func Sha512New() hash.Hash { return &Hasher{alg: "sha512", size: 64, blk: 128} }
func Sha256New() hash.Hash { return &Hasher{alg: "sha256", size: 32, blk: 64} }

func Blake2bNew(size int, key []byte) (hash.Hash, error) {
	if size < 1 || size > 64 {
		return nil, errors.New("blake2b: invalid hash size")
	}
	if len(key) > 64 {
		return nil, errors.New("blake2b: invalid key size")
	}
	return &Hasher{alg: "blake2b", key: append([]byte{}, key...), size: size, blk: 128}, nil
}

func Blake2bNew256(key []byte) (hash.Hash, error) { return Blake2bNew(32, key) }
func Blake2bNew512(key []byte) (hash.Hash, error) { return Blake2bNew(64, key) }

func HmacNew(f func() hash.Hash, key []byte) hash.Hash {
	in, ok := f().(*Hasher)
	if !ok {
		panic("hmac over an unknown hash")
	}
	return &Hasher{alg: "hmac-" + in.alg, key: append([]byte{}, key...), size: in.size, blk: in.blk}
}

func Pbkdf2Key(password, salt []byte, iter, keyLen int, f func() hash.Hash) []byte {
	in, ok := f().(*Hasher)
	if !ok {
		panic("pbkdf2 over an unknown hash")
	}
	return HashUF("pbkdf2-"+in.alg+"-"+strconv.Itoa(iter), keyLen, password, salt)
}

func Crc32(data []byte) uint32 {
	c := HashUF("crc32", 4, data)
	return uint32(c[0])<<24 | uint32(c[1])<<16 | uint32(c[2])<<8 | uint32(c[3])
}

// CrcHash stands for the streaming CRC-32.
type CrcHash struct {
	tab *crc32.Table
	buf []byte
}

func (h *CrcHash) Write(p []byte) (int, error) {
	h.buf = append(h.buf, p...)
	return len(p), nil
}
func (h *CrcHash) Sum(b []byte) []byte {
	return binary.BigEndian.AppendUint32(b, h.Sum32())
}
func (h *CrcHash) Reset()         { h.buf = nil }
func (h *CrcHash) Size() int      { return 4 }
func (h *CrcHash) BlockSize() int { return 1 }
func (h *CrcHash) Sum32() uint32  { return CrcTab(h.buf, h.tab) }

func CrcNewIEEE() hash.Hash32               { return &CrcHash{tab: crc32.IEEETable} }
func CrcNew(tab *crc32.Table) hash.Hash32   { return &CrcHash{tab: tab} }
func CrcMakeTable(poly uint32) *crc32.Table { return crcTable(poly) }

func crcTable(poly uint32) *crc32.Table {
	if poly == crc32.IEEE {
		return crc32.IEEETable
	}
	return crc32.MakeTable(poly)
}

// CrcTab is the CRC-32 of data over any table; the standard one is Crc32.
func CrcTab(data []byte, tab *crc32.Table) uint32 {
	if tab == crc32.IEEETable {
		return Crc32(data)
	}
	return CrcUpdate(0, tab, data)
}

// CrcUpdate continues a CRC-32; from the start over the standard table it is Crc32.
func CrcUpdate(crc uint32, tab *crc32.Table, p []byte) uint32 {
	if tab == crc32.IEEETable && crc == 0 {
		return Crc32(p)
	}
	crc = ^crc
	for _, b := range p {
		crc = tab[byte(crc)^b] ^ (crc >> 8)
	}
	return ^crc
}
