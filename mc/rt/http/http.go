// Package http is what starting an HTTP server is replaced with: the handler is handed to the harness.
package http

import (
	"net"
	"net/http"

	"zzmc/mc"
)

// Serve publishes h and blocks like a server does.
func Serve(h http.Handler) error {
	mc.Serve(h)
	return nil
}

func ListenAndServe(addr string, h http.Handler) error          { return Serve(def(h)) }
func ListenAndServeTLS(addr, c, k string, h http.Handler) error { return Serve(def(h)) }

// ServeListener is http.Serve.
func ServeListener(l net.Listener, h http.Handler) error { return Serve(def(h)) }

func def(h http.Handler) http.Handler {
	if h == nil {
		return http.DefaultServeMux
	}
	return h
}
