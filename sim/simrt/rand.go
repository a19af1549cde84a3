//go:build go1.22

package simrt

import "io"

// Seeded replacements for math/rand and crypto/rand.

var appRng = NewRand(1)

// SetRandSeed reseeds the randomness seen by the code under test.
func SetRandSeed(s uint64) { appRng = NewRand(s) }

func RandInt() int             { return int(appRng.U64() >> 1) }
func RandInt63() int64         { return int64(appRng.U64() >> 1) }
func RandInt63n(n int64) int64 { return int64(appRng.U64()>>1) % n }
func RandInt31n(n int32) int32 { return int32(appRng.U64()>>33) % n }
func RandUint32() uint32       { return uint32(appRng.U64()) }
func RandUint64() uint64       { return appRng.U64() }
func RandFloat64() float64     { return float64(appRng.U64()>>11) / (1 << 53) }
func RandIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return appRng.Intn(n)
}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, appRng.Intn(i+1))
	}
}
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RandShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

type randReader struct{}

func (randReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(appRng.U64())
	}
	return len(p), nil
}

var RandReader io.Reader = randReader{}

func RandRead(p []byte) (int, error) { return RandReader.Read(p) }
