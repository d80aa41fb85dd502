// Package jm is a model of encoding/json for the value shapes this code base
// uses (structs of numbers, strings, booleans and nested structs, slices and
// pointers of those). It stands in for the library while its callers are
// executed symbolically; struct tags are read from the real types by
// reflection. Native replays use the real library.
package jm

import (
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"strconv"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

// Node is a parsed JSON value.
type Node struct {
	Kind byte // 'o' object, 'a' array, 's' string, 'n' number, 't' true, 'f' false, '0' null
	Text []byte
	Keys []string
	Kids []*Node
}

var errSyntax error = &json.SyntaxError{}

type parser struct {
	b []byte
	i int
}

func (p *parser) ws() {
	for p.i < len(p.b) {
		c := p.b[p.i]
		if c != ' ' && c != '\n' && c != '\t' && c != '\r' {
			return
		}
		p.i++
	}
}

func digit(c byte) bool { return '0' <= c && c <= '9' }

func (p *parser) lit(s string, k byte) (*Node, error) {
	if len(p.b)-p.i < len(s) || string(p.b[p.i:p.i+len(s)]) != s {
		return nil, errSyntax
	}
	p.i += len(s)
	return &Node{Kind: k}, nil
}

func (p *parser) digits() bool {
	n := 0
	for p.i < len(p.b) && digit(p.b[p.i]) {
		p.i++
		n++
	}
	return n > 0
}

func (p *parser) number() (*Node, error) {
	s := p.i
	if p.b[p.i] == '-' {
		p.i++
	}
	if p.i >= len(p.b) {
		return nil, errSyntax
	}
	if p.b[p.i] == '0' {
		p.i++
	} else if !p.digits() {
		return nil, errSyntax
	}
	if p.i < len(p.b) && p.b[p.i] == '.' {
		p.i++
		if !p.digits() {
			return nil, errSyntax
		}
	}
	if p.i < len(p.b) && (p.b[p.i] == 'e' || p.b[p.i] == 'E') {
		p.i++
		if p.i < len(p.b) && (p.b[p.i] == '+' || p.b[p.i] == '-') {
			p.i++
		}
		if !p.digits() {
			return nil, errSyntax
		}
	}
	return &Node{Kind: 'n', Text: p.b[s:p.i]}, nil
}

func (p *parser) str() (*Node, error) {
	p.i++
	s := p.i
	for {
		if p.i >= len(p.b) {
			return nil, errSyntax
		}
		c := p.b[p.i]
		if c == '"' {
			p.i++
			return &Node{Kind: 's', Text: p.b[s : p.i-1]}, nil
		}
		if c < 0x20 {
			return nil, errSyntax
		}
		if c == '\\' || c >= 0x80 {
			v.Unsupported("JSON string with escapes or non-ASCII characters")
		}
		p.i++
	}
}

func (p *parser) value() (*Node, error) {
	p.ws()
	if p.i >= len(p.b) {
		return nil, errSyntax
	}
	switch c := p.b[p.i]; {
	case c == '{':
		n := &Node{Kind: 'o'}
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == '}' {
			p.i++
			return n, nil
		}
		for {
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != '"' {
				return nil, errSyntax
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != ':' {
				return nil, errSyntax
			}
			p.i++
			w, err := p.value()
			if err != nil {
				return nil, err
			}
			n.Keys = append(n.Keys, string(k.Text))
			n.Kids = append(n.Kids, w)
			p.ws()
			if p.i >= len(p.b) {
				return nil, errSyntax
			}
			c := p.b[p.i]
			p.i++
			if c == '}' {
				return n, nil
			}
			if c != ',' {
				return nil, errSyntax
			}
		}
	case c == '[':
		n := &Node{Kind: 'a'}
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			return n, nil
		}
		for {
			w, err := p.value()
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, w)
			p.ws()
			if p.i >= len(p.b) {
				return nil, errSyntax
			}
			c := p.b[p.i]
			p.i++
			if c == ']' {
				return n, nil
			}
			if c != ',' {
				return nil, errSyntax
			}
		}
	case c == '"':
		return p.str()
	case c == 't':
		return p.lit("true", 't')
	case c == 'f':
		return p.lit("false", 'f')
	case c == 'n':
		return p.lit("null", '0')
	case c == '-' || digit(c):
		return p.number()
	}
	return nil, errSyntax
}

// Parse reads one JSON document.
func Parse(b []byte) (*Node, error) {
	p := &parser{b: b}
	n, err := p.value()
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.i != len(b) {
		return nil, errSyntax
	}
	return n, nil
}

// Get is the last member of that name.
func (n *Node) Get(k string) *Node {
	for i := len(n.Keys) - 1; i >= 0; i-- {
		if n.Keys[i] == k {
			return n.Kids[i]
		}
	}
	return nil
}

type field struct {
	name string
	idx  int
	omit bool
}

func fields(t reflect.Type) []field {
	var out []field
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous {
			v.Unsupported("embedded struct in JSON")
		}
		if f.PkgPath != "" {
			continue
		}
		tag := f.Tag.Get("json")
		if tag == "-" {
			continue
		}
		name := f.Name
		omit := false
		for k, part := range strings.Split(tag, ",") {
			switch {
			case k == 0 && part != "":
				name = part
			case k == 0:
			case part == "omitempty":
				omit = true
			default:
				v.Unsupported("JSON tag option " + part)
			}
		}
		out = append(out, field{name, i, omit})
	}
	return out
}

func errType(n *Node, rv reflect.Value) error {
	return &json.UnmarshalTypeError{Value: "value", Type: rv.Type()}
}

func assign(n *Node, rv reflect.Value) error {
	if rv.Kind() == reflect.Ptr {
		if n.Kind == '0' {
			rv.Set(reflect.Zero(rv.Type()))
			return nil
		}
		if rv.IsNil() {
			rv.Set(reflect.New(rv.Type().Elem()))
		}
		return assign(n, rv.Elem())
	}
	if n.Kind == '0' {
		switch rv.Kind() {
		case reflect.Slice, reflect.Map, reflect.Interface:
			rv.Set(reflect.Zero(rv.Type()))
		}
		return nil
	}
	switch rv.Kind() {
	case reflect.Struct:
		if n.Kind != 'o' {
			return errType(n, rv)
		}
		fs := fields(rv.Type())
		var saved error
		for i, k := range n.Keys {
			hit := -1
			for _, f := range fs {
				if f.name == k {
					hit = f.idx
					break
				}
			}
			if hit < 0 {
				for _, f := range fs {
					if strings.EqualFold(f.name, k) {
						hit = f.idx
						break
					}
				}
			}
			if hit < 0 {
				continue
			}
			if err := assign(n.Kids[i], rv.Field(hit)); err != nil && saved == nil {
				saved = err
			}
		}
		return saved
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n.Kind != 'n' {
			return errType(n, rv)
		}
		u, err := strconv.ParseUint(string(n.Text), 10, bits(rv.Kind()))
		if err != nil {
			return errType(n, rv)
		}
		rv.SetUint(u)
		return nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n.Kind != 'n' {
			return errType(n, rv)
		}
		u, err := strconv.ParseInt(string(n.Text), 10, bits(rv.Kind()))
		if err != nil {
			return errType(n, rv)
		}
		rv.SetInt(u)
		return nil
	case reflect.String:
		if n.Kind != 's' {
			return errType(n, rv)
		}
		rv.SetString(string(n.Text))
		return nil
	case reflect.Bool:
		if n.Kind != 't' && n.Kind != 'f' {
			return errType(n, rv)
		}
		rv.SetBool(n.Kind == 't')
		return nil
	}
	v.Unsupported("JSON decoding into this type")
	return nil
}

func bits(k reflect.Kind) int {
	switch k {
	case reflect.Uint8, reflect.Int8:
		return 8
	case reflect.Uint16, reflect.Int16:
		return 16
	case reflect.Uint32, reflect.Int32:
		return 32
	}
	return 64
}

// Unmarshal is encoding/json.Unmarshal.
func Unmarshal(data []byte, dst interface{}) error {
	n, err := Parse(data)
	if err != nil {
		return err
	}
	rv := reflect.ValueOf(dst)
	if rv.Kind() != reflect.Ptr || rv.IsNil() {
		return errors.New("json: Unmarshal(non-pointer)")
	}
	return assign(n, rv.Elem())
}

func write(out []byte, rv reflect.Value, prefix, indent string, pretty bool) []byte {
	nl := func(out []byte, p string) []byte {
		if !pretty {
			return out
		}
		out = append(out, '\n')
		return append(out, p...)
	}
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface:
		if rv.IsNil() {
			return append(out, "null"...)
		}
		return write(out, rv.Elem(), prefix, indent, pretty)
	case reflect.String:
		s := rv.String()
		for i := 0; i < len(s); i++ {
			c := s[i]
			if c < 0x20 || c >= 0x7f || c == '"' || c == '\\' || c == '<' || c == '>' || c == '&' {
				v.Unsupported("JSON string that needs escaping")
			}
		}
		out = append(out, '"')
		out = append(out, s...)
		return append(out, '"')
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return append(out, strconv.FormatUint(rv.Uint(), 10)...)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return append(out, strconv.FormatInt(rv.Int(), 10)...)
	case reflect.Bool:
		if rv.Bool() {
			return append(out, "true"...)
		}
		return append(out, "false"...)
	case reflect.Struct:
		out = append(out, '{')
		n := 0
		for _, f := range fields(rv.Type()) {
			w := rv.Field(f.idx)
			if f.omit {
				switch w.Kind() {
				case reflect.String:
					if w.Len() == 0 {
						continue
					}
				case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
					if w.Uint() == 0 {
						continue
					}
				default:
					v.Unsupported("omitempty on this kind")
				}
			}
			if n > 0 {
				out = append(out, ',')
			}
			n++
			out = nl(out, prefix+indent)
			out = append(out, '"')
			out = append(out, f.name...)
			out = append(out, '"', ':')
			if pretty {
				out = append(out, ' ')
			}
			out = write(out, w, prefix+indent, indent, pretty)
		}
		if n > 0 {
			out = nl(out, prefix)
		}
		return append(out, '}')
	case reflect.Map:
		if rv.Type().Key().Kind() != reflect.String || rv.Len() > 1 && pretty {
			v.Unsupported("JSON encoding of this map")
		}
		ks := rv.MapKeys()
		for i := range ks {
			for j := i + 1; j < len(ks); j++ {
				if ks[j].String() < ks[i].String() {
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
		}
		out = append(out, '{')
		for i, k := range ks {
			if i > 0 {
				out = append(out, ',')
			}
			out = nl(out, prefix+indent)
			out = append(out, '"')
			out = append(out, k.String()...)
			out = append(out, '"', ':')
			if pretty {
				out = append(out, ' ')
			}
			out = write(out, rv.MapIndex(k), prefix+indent, indent, pretty)
		}
		if len(ks) > 0 {
			out = nl(out, prefix)
		}
		return append(out, '}')
	}
	v.Unsupported("JSON encoding of this type")
	return out
}

// Marshal is encoding/json.Marshal.
func Marshal(x interface{}) ([]byte, error) {
	return write(nil, reflect.ValueOf(x), "", "", false), nil
}

// MarshalIndent is encoding/json.MarshalIndent.
func MarshalIndent(x interface{}, prefix, indent string) ([]byte, error) {
	return write(nil, reflect.ValueOf(x), prefix, indent, true), nil
}

// ---- streams ----

type decState struct {
	d    *json.Decoder
	r    io.Reader
	data []byte
	pos  int
	read bool
}

type encState struct {
	e              *json.Encoder
	w              io.Writer
	prefix, indent string
	pretty         bool
}

var decs []*decState
var encs []*encState

func NewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	decs = append(decs, &decState{d: d, r: r})
	return d
}

func Decode(d *json.Decoder, dst interface{}) error {
	for _, s := range decs {
		if s.d != d {
			continue
		}
		if !s.read {
			b, err := io.ReadAll(s.r)
			if err != nil {
				return err
			}
			s.data, s.read = b, true
		}
		p := &parser{b: s.data, i: s.pos}
		p.ws()
		if p.i == len(p.b) {
			return io.EOF
		}
		n, err := p.value()
		if err != nil {
			return err
		}
		s.pos = p.i
		return assign(n, reflect.ValueOf(dst).Elem())
	}
	v.Unsupported("decoder not made by the stand-in")
	return nil
}

func NewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	encs = append(encs, &encState{e: e, w: w})
	return e
}

func SetIndent(e *json.Encoder, prefix, indent string) {
	for _, s := range encs {
		if s.e == e {
			s.prefix, s.indent, s.pretty = prefix, indent, true
		}
	}
}

func Encode(e *json.Encoder, x interface{}) error {
	for _, s := range encs {
		if s.e == e {
			b := write(nil, reflect.ValueOf(x), s.prefix, s.indent, s.pretty)
			_, err := s.w.Write(append(b, '\n'))
			return err
		}
	}
	v.Unsupported("encoder not made by the stand-in")
	return nil
}
