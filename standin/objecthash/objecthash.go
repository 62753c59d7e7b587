// Package objecthash is a stand-in for github.com/continusec/objecthash, which
// is not in this sandbox's module cache. It implements the part of the API that
// verifiabledatastructures uses, with the published objecthash construction
// (type-tagged SHA-256), so that the repository's packages can be linked and run.
package objecthash

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
)

const stdPrefix = "***REDACTED*** Hash: "

var (
	ErrUnrecognizedType = errors.New("objecthash: unrecognized type")
	ErrBadRedaction     = errors.New("objecthash: malformed redacted value")
)

func hash(tag string, b []byte) []byte {
	h := sha256.New()
	h.Write([]byte(tag))
	h.Write(b)
	return h.Sum(nil)
}

func normalizeFloat(orig float64) (string, error) {
	f := orig
	if f == 0 {
		return "+0:", nil
	}
	if f != f || f > 1.7976931348623157e308 || f < -1.7976931348623157e308 {
		return "", fmt.Errorf("objecthash: cannot normalize %v", orig)
	}
	s := "+"
	if f < 0 {
		s, f = "-", -f
	}
	e := 0
	for f > 1 {
		f /= 2
		e++
	}
	for f <= .5 {
		f *= 2
		e--
	}
	var sb strings.Builder
	sb.WriteString(s)
	fmt.Fprintf(&sb, "%d:", e)
	for f != 0 {
		if f >= 1 {
			sb.WriteByte('1')
			f--
		} else {
			sb.WriteByte('0')
		}
		if f >= 1 || sb.Len() >= 1000 {
			return "", fmt.Errorf("objecthash: cannot normalize %v", orig)
		}
		f *= 2
	}
	return sb.String(), nil
}

func objectHash(o interface{}, prefix string) ([]byte, error) {
	switch v := o.(type) {
	case nil:
		return hash("n", nil), nil
	case bool:
		if v {
			return hash("b", []byte("1")), nil
		}
		return hash("b", []byte("0")), nil
	case int:
		return hash("i", []byte(fmt.Sprintf("%d", v))), nil
	case int64:
		return hash("i", []byte(fmt.Sprintf("%d", v))), nil
	case float64:
		s, err := normalizeFloat(v)
		if err != nil {
			return nil, err
		}
		return hash("f", []byte(s)), nil
	case string:
		if prefix != "" && strings.HasPrefix(v, prefix) {
			b, err := hex.DecodeString(v[len(prefix):])
			if err != nil || len(b) != sha256.Size {
				return nil, ErrBadRedaction
			}
			return b, nil
		}
		return hash("u", []byte(v)), nil
	case []interface{}:
		var buf bytes.Buffer
		for _, e := range v {
			h, err := objectHash(e, prefix)
			if err != nil {
				return nil, err
			}
			buf.Write(h)
		}
		return hash("l", buf.Bytes()), nil
	case map[string]interface{}:
		pairs := make([][]byte, 0, len(v))
		for k, e := range v {
			hk := hash("u", []byte(k))
			hv, err := objectHash(e, prefix)
			if err != nil {
				return nil, err
			}
			pairs = append(pairs, append(hk, hv...))
		}
		sort.Slice(pairs, func(i, j int) bool { return bytes.Compare(pairs[i], pairs[j]) < 0 })
		return hash("d", bytes.Join(pairs, nil)), nil
	}
	return nil, ErrUnrecognizedType
}

// ObjectHash returns the hash of o, with no redaction.
func ObjectHash(o interface{}) ([]byte, error) { return objectHash(o, "") }

// ObjectHashWithRedaction treats strings starting with prefix as redacted values.
func ObjectHashWithRedaction(o interface{}, prefix string) ([]byte, error) {
	return objectHash(o, prefix)
}

// ObjectHashWithStdRedaction is ObjectHashWithRedaction with the standard prefix.
func ObjectHashWithStdRedaction(o interface{}) ([]byte, error) { return objectHash(o, stdPrefix) }

// CommonJSONHash hashes a JSON document.
func CommonJSONHash(j []byte) ([]byte, error) {
	var o interface{}
	if err := json.Unmarshal(j, &o); err != nil {
		return nil, err
	}
	return ObjectHash(o)
}

// Redactable replaces each object value by a [nonce, value] tuple.
func Redactable(o interface{}) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(v))
		for i, e := range v {
			x, err := Redactable(e)
			if err != nil {
				return nil, err
			}
			rv[i] = x
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{}, len(v))
		for k, e := range v {
			x, err := Redactable(e)
			if err != nil {
				return nil, err
			}
			nonce := make([]byte, 32)
			if _, err := rand.Read(nonce); err != nil {
				return nil, err
			}
			rv[k] = []interface{}{hex.EncodeToString(nonce), x}
		}
		return rv, nil
	}
	return o, nil
}

// Filtered redacts the object values whose field is not in the comma-separated
// list fields; "*" stands for every field.
func Filtered(o interface{}, fields string) (interface{}, error) {
	if fields == "*" {
		return o, nil
	}
	m, ok := o.(map[string]interface{})
	if !ok {
		return nil, ErrUnrecognizedType
	}
	allowed := make(map[string]bool)
	for _, f := range strings.Split(fields, ",") {
		allowed[f] = true
	}
	rv := make(map[string]interface{}, len(m))
	for k, e := range m {
		if allowed[k] {
			rv[k] = e
			continue
		}
		h, err := ObjectHashWithStdRedaction(e)
		if err != nil {
			return nil, err
		}
		rv[k] = stdPrefix + hex.EncodeToString(h)
	}
	return rv, nil
}

// Unredactable sheds redacted object values and unwraps [nonce, value] tuples.
func Unredactable(o interface{}, prefix string) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(v))
		for i, e := range v {
			x, err := Unredactable(e, prefix)
			if err != nil {
				return nil, err
			}
			rv[i] = x
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{}, len(v))
		for k, e := range v {
			switch t := e.(type) {
			case []interface{}:
				if len(t) != 2 {
					return nil, ErrBadRedaction
				}
				x, err := Unredactable(t[1], prefix)
				if err != nil {
					return nil, err
				}
				rv[k] = x
			case string:
				if !strings.HasPrefix(t, prefix) {
					return nil, ErrBadRedaction
				}
			default:
				return nil, ErrBadRedaction
			}
		}
		return rv, nil
	}
	return o, nil
}

// UnredactableWithStdPrefix is Unredactable with the standard prefix.
func UnredactableWithStdPrefix(o interface{}) (interface{}, error) { return Unredactable(o, stdPrefix) }
