// Package vnet stands in for net: dialling and listening go through hooks when
// a harness installs them.
package vnet

import (
	"context"
	"net"
	"time"
)

// DialHook and ListenHook replace the network when set.
var (
	DialHook   func(network, addr string, timeout time.Duration) (net.Conn, error)
	ListenHook func(network, addr string) (net.Listener, error)
)

func Dial(network, addr string) (net.Conn, error) {
	if h := DialHook; h != nil {
		return h(network, addr, 0)
	}
	return net.Dial(network, addr)
}

func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	if h := DialHook; h != nil {
		return h(network, addr, d)
	}
	return net.DialTimeout(network, addr, d)
}

func DialTCP(network string, laddr, raddr *net.TCPAddr) (*net.TCPConn, error) {
	return net.DialTCP(network, laddr, raddr)
}

type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr net.Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	if h := DialHook; h != nil {
		return h(network, addr, d.Timeout)
	}
	return (&net.Dialer{Timeout: d.Timeout, Deadline: d.Deadline, LocalAddr: d.LocalAddr, KeepAlive: d.KeepAlive}).Dial(network, addr)
}

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	if h := DialHook; h != nil {
		return h(network, addr, d.Timeout)
	}
	return (&net.Dialer{Timeout: d.Timeout, Deadline: d.Deadline, LocalAddr: d.LocalAddr, KeepAlive: d.KeepAlive}).DialContext(ctx, network, addr)
}

func Listen(network, addr string) (net.Listener, error) {
	if h := ListenHook; h != nil {
		return h(network, addr)
	}
	return net.Listen(network, addr)
}

type ListenConfig struct {
	KeepAlive time.Duration
}

func (lc *ListenConfig) Listen(ctx context.Context, network, addr string) (net.Listener, error) {
	return Listen(network, addr)
}
