package reuseport

import (
	"net"

	"gevmc/shim/vnet"
)

func Available() bool { return true }

func Listen(network, address string) (net.Listener, error) { return vnet.ListenReuse(network, address) }
