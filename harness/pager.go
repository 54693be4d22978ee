package main

import (
	"errors"
	"io"
	"slices"

	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

// pager is a page store with any page size and any base address, so that a few keys
// make deep trees and addresses need long encodings. It notices writes which leave
// the page they start in.
type pager struct {
	base  int64
	psize int
	b     []byte
	pos   int64 // relative to base
	over  bool
	free  []int64 // offsets of freed pages, the next to be used first
	fault func(op string) error
}

var _ pagefile.ReadWriteSeekPager = (*pager)(nil)

func (p *pager) f(op string) error {
	if p.fault != nil {
		return p.fault(op)
	}
	return nil
}

func (p *pager) Seek(off int64, whence int) (int64, error) {
	if err := p.f("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		off -= p.base
	case io.SeekCurrent:
		off += p.pos
	case io.SeekEnd:
		off += int64(len(p.b))
	}
	if off < 0 || off > int64(len(p.b)) {
		return 0, errors.New("pager: seek out of bounds")
	}
	p.pos = off
	return off + p.base, nil
}

func (p *pager) Read(b []byte) (int, error) {
	if err := p.f("read"); err != nil {
		return 0, err
	}
	n := copy(b, p.b[p.pos:])
	p.pos += int64(n)
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (p *pager) Write(b []byte) (int, error) {
	if err := p.f("write"); err != nil {
		return 0, err
	}
	if len(b) > 0 && p.pos/int64(p.psize) != (p.pos+int64(len(b))-1)/int64(p.psize) {
		p.over = true
	}
	if end := p.pos + int64(len(b)); end > int64(len(p.b)) {
		p.b = append(p.b, make([]byte, end-int64(len(p.b)))...)
	}
	copy(p.b[p.pos:], b)
	p.pos += int64(len(b))
	return len(b), nil
}

func (p *pager) Page(i int) (int64, error) { return p.base + int64(i)*int64(p.psize), nil }
func (p *pager) NewPage(b []byte) (int64, error) {
	if err := p.f("newpage"); err != nil {
		return 0, err
	}
	if len(b) > p.psize {
		return 0, errors.New("pager: buffer is too large")
	}
	off := int64(len(p.b))
	if len(p.free) > 0 {
		off = p.free[0] - p.base
		p.free = p.free[1:]
		n := copy(p.b[off:off+int64(p.psize)], b)
		clear(p.b[off+int64(n) : off+int64(p.psize)])
		p.pos = off
		return p.base + off, nil
	}
	pg := make([]byte, p.psize)
	copy(pg, b)
	p.b = append(p.b, pg...)
	p.pos = off
	return p.base + off, nil
}
func (p *pager) FreePage(off int64) error {
	if err := p.f("freepage"); err != nil {
		return err
	}
	if off < p.base || (off-p.base)%int64(p.psize) != 0 || off-p.base >= int64(len(p.b)) || slices.Contains(p.free, off) {
		return errors.New("pager: not a page that can be freed")
	}
	p.free = append(p.free, off)
	return nil
}
func (p *pager) LastPage() int64  { return int64(len(p.b) / p.psize) }
func (p *pager) PageSize() int    { return p.psize }
func (p *pager) SlotSize() int    { return 256 }
func (p *pager) PageCount() int64 { return int64(len(p.b) / p.psize) }

// memRoot holds the root pointer of one tree.
type memRoot struct {
	mp    pointer.MemoryPointer
	fault func(op string) error
}

func (m *memRoot) Root() (pointer.MemoryPointer, error) {
	if m.fault != nil {
		if err := m.fault("root"); err != nil {
			return pointer.MemoryPointer{}, err
		}
	}
	return m.mp, nil
}
func (m *memRoot) SetRoot(mp pointer.MemoryPointer) error {
	if m.fault != nil {
		if err := m.fault("setroot"); err != nil {
			return err
		}
	}
	m.mp = mp
	return nil
}
