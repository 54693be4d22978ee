package main

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
)

// httpd serves a folder on the loopback network until its standard input ends: a server of
// someone else's making for the client's requests.
func httpd(dir string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Println(l.Addr().String())
	go http.Serve(l, http.FileServer(http.Dir(dir)))
	io.Copy(io.Discard, os.Stdin)
}
