package main

import (
	"errors"
	"io"
)

// memFile is a flat in-memory file with POSIX-like semantics (no sparse seeks past
// the end: the code under test never needs them), optional write log and fault plan.
type memFile struct {
	b       []byte
	pos     int64
	onWrite func(off int64, p []byte) error // called before the write is applied
	onRead  func(off int64, n int) error
	onSeek  func(off int64, whence int) error
}

func (m *memFile) Bytes() []byte { return m.b }

func (m *memFile) Seek(off int64, whence int) (int64, error) {
	if m.onSeek != nil {
		if err := m.onSeek(off, whence); err != nil {
			return 0, err
		}
	}
	var abs int64
	switch whence {
	case io.SeekStart:
		abs = off
	case io.SeekCurrent:
		abs = m.pos + off
	case io.SeekEnd:
		abs = int64(len(m.b)) + off
	}
	if abs < 0 || abs > int64(len(m.b)) {
		return 0, errors.New("memfile: seek out of bounds")
	}
	m.pos = abs
	return abs, nil
}

func (m *memFile) Read(p []byte) (int, error) {
	if m.onRead != nil {
		if err := m.onRead(m.pos, len(p)); err != nil {
			return 0, err
		}
	}
	n := copy(p, m.b[m.pos:])
	m.pos += int64(n)
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (m *memFile) Write(p []byte) (int, error) {
	if m.onWrite != nil {
		if err := m.onWrite(m.pos, p); err != nil {
			return 0, err
		}
	}
	end := m.pos + int64(len(p))
	if end > int64(len(m.b)) {
		m.b = append(m.b, make([]byte, end-int64(len(m.b)))...)
	}
	copy(m.b[m.pos:], p)
	m.pos = end
	return len(p), nil
}

func (m *memFile) clone() *memFile { return &memFile{b: append([]byte(nil), m.b...)} }
