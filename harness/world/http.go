package world

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"reflect"
	"strings"
	"unsafe"

	"github.com/blockfrost/blockfrost-go"
	"github.com/fivebinaries/go-cardano-serialization/zz_verif/v"
)

// Blockfrost is what the blockfrost server answers.
type Blockfrost struct {
	UTXOs  []blockfrost.AddressUTXO
	Params blockfrost.EpochParameters
	Block  blockfrost.Block
	Fail   bool // every query is refused

	Status int // answer to posted transactions
	Reply  []byte
	Down   bool // posting fails without an answer
	Broken bool // the answer breaks off
}

// Request is one request the code made.
type Request struct {
	Method, URL string
	Project     string
	ContentType string
	Body        []byte
	HasBody     bool
}

var (
	bf       Blockfrost
	requests []Request
	servers  []string // servers of the API clients made
	keys     []string
)

var errRefused = errors.New("request refused")

// Serve installs the answers.
func Serve(b Blockfrost) {
	bf = b
	if !v.Symbolic() {
		http.DefaultTransport = transport{}
	}
}

// Attach makes the HTTP clients inside a node (found by reflection) use the
// installed answers; it does nothing in symbolic runs.
func Attach(n interface{}) {
	if !v.Symbolic() {
		walk(reflect.ValueOf(n), 0)
	}
}

// Requests lists the requests made so far.
func Requests() []Request { return requests }

// Posts lists the requests that carry a body.
func Posts() []Request {
	var out []Request
	for _, r := range requests {
		if r.HasBody {
			out = append(out, r)
		}
	}
	return out
}

func walk(x reflect.Value, depth int) {
	if depth > 8 {
		return
	}
	switch x.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !x.IsNil() {
			walk(x.Elem(), depth+1)
		}
	case reflect.Struct:
		if !x.CanAddr() {
			return
		}
		if x.Type() == reflect.TypeOf(http.Client{}) {
			c := (*http.Client)(unsafe.Pointer(x.UnsafeAddr()))
			c.Transport = transport{}
			return
		}
		for i := 0; i < x.NumField(); i++ {
			f := x.Field(i)
			walk(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), depth+1)
		}
	}
}

type transport struct{}

// RoundTrip answers natively, through the real client library.
func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	q := Request{Method: r.Method, URL: r.URL.String(), Project: r.Header.Get("project_id"), ContentType: r.Header.Get("Content-Type")}
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return nil, err
		}
		q.Body, q.HasBody = b, true
	}
	requests = append(requests, q)
	res := &http.Response{StatusCode: 200, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r}
	var body []byte
	if q.HasBody {
		if bf.Down {
			return nil, errRefused
		}
		res.StatusCode = bf.Status
		body = bf.Reply
	} else if bf.Fail {
		res.StatusCode = 403
		body = []byte(`{"status_code": 403, "error": "Forbidden", "message": "Invalid project token."}`)
	} else {
		path := r.URL.Path
		switch {
		case strings.HasSuffix(path, "/utxos"):
			us := bf.UTXOs
			if us == nil {
				us = []blockfrost.AddressUTXO{}
			}
			body, _ = json.Marshal(us)
		case strings.HasSuffix(path, "/parameters"):
			body, _ = json.Marshal(bf.Params)
		case strings.HasSuffix(path, "/blocks/latest"):
			body, _ = json.Marshal(bf.Block)
		default:
			res.StatusCode = 404
			body = []byte(`{"status_code": 404, "error": "Not Found", "message": "unknown"}`)
		}
	}
	res.Body = answer(body)
	return res, nil
}

// breaks is a body that fails after what it holds.
type breaks struct{ b []byte }

func (r *breaks) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.ErrUnexpectedEOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func answer(b []byte) io.ReadCloser {
	if bf.Broken {
		return io.NopCloser(&breaks{b[:len(b)/2]})
	}
	return io.NopCloser(bytes.NewReader(b))
}

// ---- stand-ins ----

// client answers in place of blockfrost-go's client; queries the code is not
// expected to make end the path.
type client struct {
	blockfrost.APIClient
	server, key string
}

func NewAPIClient(o blockfrost.APIClientOptions) blockfrost.APIClient {
	s := o.Server
	if s == "" {
		s = blockfrost.CardanoMainNet
	}
	return &client{server: s, key: o.ProjectID}
}

func (c *client) query(path string) error {
	requests = append(requests, Request{Method: "GET", URL: c.server + path, Project: c.key})
	if bf.Fail {
		return errRefused
	}
	return nil
}

func (c *client) AddressUTXOs(ctx context.Context, address string, q blockfrost.APIQueryParams) ([]blockfrost.AddressUTXO, error) {
	if err := c.query("/addresses/" + address + "/utxos"); err != nil {
		return nil, err
	}
	return bf.UTXOs, nil
}

func (c *client) LatestEpochParameters(ctx context.Context) (blockfrost.EpochParameters, error) {
	if err := c.query("/epochs/latest/parameters"); err != nil {
		return blockfrost.EpochParameters{}, err
	}
	return bf.Params, nil
}

func (c *client) BlockLatest(ctx context.Context) (blockfrost.Block, error) {
	if err := c.query("/blocks/latest"); err != nil {
		return blockfrost.Block{}, err
	}
	return bf.Block, nil
}

func ClientDo(c *http.Client, r *http.Request) (*http.Response, error) {
	q := Request{Method: r.Method, URL: r.URL.String(), Project: r.Header.Get("project_id"), ContentType: r.Header.Get("Content-Type")}
	if r.Body == nil {
		v.Unsupported("direct request without a body")
	}
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return nil, err
	}
	q.Body, q.HasBody = b, true
	requests = append(requests, q)
	if bf.Down {
		return nil, errRefused
	}
	return &http.Response{StatusCode: bf.Status, Body: answer(bf.Reply)}, nil
}
