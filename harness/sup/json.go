package sup

import (
	"bytes"
	"encoding/json"
)

// Line encodes one record for TLC's JSON reader, which knows no null: an
// absent list is an empty list.
func Line(v interface{}) ([]byte, error) {
	b, err := json.Marshal(v)
	b = bytes.ReplaceAll(b, []byte(`":null`), []byte(`":[]`))
	return append(b, '\n'), err
}
