// Package golden holds share sets stored by an earlier version of the library
// (see gen.go.txt).
package golden

import (
	"bytes"
	"compress/gzip"
	_ "embed"
	"encoding/json"
)

//go:embed golden.json.gz
var packed []byte

// Set is one stored share set.
type Set struct {
	Entry  string
	SSMS   bool
	N, K   int
	Secret []byte
	Shares [][]byte
	All    bool
}

// Load unpacks the stored sets.
func Load() ([]Set, error) {
	z, err := gzip.NewReader(bytes.NewReader(packed))
	if err != nil {
		return nil, err
	}
	var l []Set
	err = json.NewDecoder(z).Decode(&l)
	return l, err
}
