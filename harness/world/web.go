package world

import (
	"errors"
	"io"
	"net/http"
)

// HTTPSpec is the answer of the web.
type HTTPSpec struct {
	Fail   string `json:"fail,omitempty"` // no answer
	Status int    `json:"status"`
	Body   []byte `json:"body"`
	Pieces []int  `json:"pieces"`           // sizes of the parts that arrive, the last repeats
	Cut    int    `json:"cut"`              // the connection fails after so many bytes, -1 for never
	Broken string `json:"broken,omitempty"` // in this way
}

type webServer struct {
	spec *HTTPSpec
	tr   *CLITrailer
}

func (w *webServer) RoundTrip(q *http.Request) (*http.Response, error) {
	w.tr.Web = append(w.tr.Web, q.Method+" "+q.URL.String())
	if w.spec == nil {
		return nil, errors.New("network is unreachable")
	}
	if w.spec.Fail != "" {
		w.tr.Fired["http-"+w.spec.Fail]++
		return nil, errors.New(w.spec.Fail)
	}
	w.tr.WebOpen++
	return &http.Response{
		Status: http.StatusText(w.spec.Status), StatusCode: w.spec.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: &webBody{spec: w.spec, tr: w.tr}, ContentLength: -1, Request: q,
	}, nil
}

type webBody struct {
	spec   *HTTPSpec
	tr     *CLITrailer
	pos, n int
	closed bool
}

func (b *webBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	end := len(b.spec.Body)
	final := io.EOF
	if b.spec.Cut >= 0 && b.spec.Cut < end {
		end, final = b.spec.Cut, io.ErrUnexpectedEOF
		if b.spec.Broken != "" {
			final = errors.New(b.spec.Broken)
		}
	}
	if b.pos >= end {
		if final != io.EOF {
			b.tr.Fired["http-cut"]++
		}
		return 0, final
	}
	k := len(p)
	if len(b.spec.Pieces) > 0 {
		k = min(k, max(1, b.spec.Pieces[min(b.n, len(b.spec.Pieces)-1)]))
	}
	b.n++
	n := copy(p[:k], b.spec.Body[b.pos:end])
	b.pos += n
	return n, nil
}

func (b *webBody) Close() error {
	if !b.closed {
		b.closed = true
		b.tr.WebOpen--
	}
	return nil
}
