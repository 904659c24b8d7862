package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"verif/vs"
)

// Store is the library's memory store with fault injection. It remembers which identifiers are in use so that the
// harness can inspect the contents without a scheduling point.
type Store struct {
	w     *World
	m     *memory.Storage
	held  vs.Table[uint16, any]
	ops   int
	fault func(op string) error
}

func (w *World) NewStore() *Store { return &Store{w: w, m: memory.NewStorage()} }

func (s *Store) step(op string) error {
	s.ops++
	if s.fault != nil {
		return s.w.failure(op, s.fault(op))
	}
	return nil
}

func (s *Store) Store(id uint16, packet any) error {
	if err := s.step("store"); err != nil {
		return err
	}
	err := s.m.Store(id, packet)
	if err == nil {
		s.held.Set(id, packet)
	}
	return err
}

func (s *Store) Get(id uint16) (any, error) {
	if err := s.step("get"); err != nil {
		return nil, err
	}
	return s.m.Get(id)
}

func (s *Store) Drop(id uint16) error {
	if err := s.step("drop"); err != nil {
		return err
	}
	err := s.m.Drop(id)
	if err == nil {
		s.held.Delete(id)
	}
	return err
}

// kind names what is stored under an identifier: PUBLISH, PUBREC or nothing.
func (s *Store) kind(id uint16) string {
	p, ok := s.held.Get(id)
	if !ok {
		return ""
	}
	switch p.(type) {
	case *packets.Publish:
		return "PUBLISH"
	case *packets.Pubrec:
		return "PUBREC"
	}
	return fmt.Sprintf("%T", p)
}

// contents lists what is stored, in the order of the identifiers.
func (s *Store) contents() string {
	ids := append([]uint16{}, s.held.Keys()...)
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var l []string
	for _, id := range ids {
		l = append(l, fmt.Sprintf("%d:%s", id, s.kind(id)))
	}
	return strings.Join(l, " ")
}

func withStore(s *Store) func(c *Client, p *packets.Connect) {
	return func(c *Client, p *packets.Connect) {
		c.store = s
		c.SetStorage(s)
	}
}
