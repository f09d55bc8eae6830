// Code generated by cmd/aliases; DO NOT EDIT.

package vnet

import nat "net"

type (
	Addr                = nat.Addr
	AddrError           = nat.AddrError
	Buffers             = nat.Buffers
	Conn                = nat.Conn
	DNSConfigError      = nat.DNSConfigError
	DNSError            = nat.DNSError
	Error               = nat.Error
	Flags               = nat.Flags
	HardwareAddr        = nat.HardwareAddr
	IP                  = nat.IP
	IPAddr              = nat.IPAddr
	IPConn              = nat.IPConn
	IPMask              = nat.IPMask
	IPNet               = nat.IPNet
	Interface           = nat.Interface
	InvalidAddrError    = nat.InvalidAddrError
	Listener            = nat.Listener
	MX                  = nat.MX
	NS                  = nat.NS
	OpError             = nat.OpError
	PacketConn          = nat.PacketConn
	ParseError          = nat.ParseError
	Resolver            = nat.Resolver
	SRV                 = nat.SRV
	TCPAddr             = nat.TCPAddr
	UDPAddr             = nat.UDPAddr
	UDPConn             = nat.UDPConn
	UnixAddr            = nat.UnixAddr
	UnixConn            = nat.UnixConn
	UnixListener        = nat.UnixListener
	UnknownNetworkError = nat.UnknownNetworkError
)

const (
	FlagBroadcast    = nat.FlagBroadcast
	FlagLoopback     = nat.FlagLoopback
	FlagMulticast    = nat.FlagMulticast
	FlagPointToPoint = nat.FlagPointToPoint
	FlagRunning      = nat.FlagRunning
	FlagUp           = nat.FlagUp
	IPv4len          = nat.IPv4len
	IPv6len          = nat.IPv6len
)

var (
	CIDRMask                   = nat.CIDRMask
	DefaultResolver            = nat.DefaultResolver
	DialIP                     = nat.DialIP
	DialUDP                    = nat.DialUDP
	DialUnix                   = nat.DialUnix
	ErrClosed                  = nat.ErrClosed
	ErrWriteToConnected        = nat.ErrWriteToConnected
	FileConn                   = nat.FileConn
	FileListener               = nat.FileListener
	FilePacketConn             = nat.FilePacketConn
	IPv4                       = nat.IPv4
	IPv4Mask                   = nat.IPv4Mask
	IPv4allrouter              = nat.IPv4allrouter
	IPv4allsys                 = nat.IPv4allsys
	IPv4bcast                  = nat.IPv4bcast
	IPv4zero                   = nat.IPv4zero
	IPv6interfacelocalallnodes = nat.IPv6interfacelocalallnodes
	IPv6linklocalallnodes      = nat.IPv6linklocalallnodes
	IPv6linklocalallrouters    = nat.IPv6linklocalallrouters
	IPv6loopback               = nat.IPv6loopback
	IPv6unspecified            = nat.IPv6unspecified
	IPv6zero                   = nat.IPv6zero
	InterfaceAddrs             = nat.InterfaceAddrs
	InterfaceByIndex           = nat.InterfaceByIndex
	InterfaceByName            = nat.InterfaceByName
	Interfaces                 = nat.Interfaces
	JoinHostPort               = nat.JoinHostPort
	ListenIP                   = nat.ListenIP
	ListenMulticastUDP         = nat.ListenMulticastUDP
	ListenPacket               = nat.ListenPacket
	ListenUDP                  = nat.ListenUDP
	ListenUnix                 = nat.ListenUnix
	ListenUnixgram             = nat.ListenUnixgram
	LookupAddr                 = nat.LookupAddr
	LookupCNAME                = nat.LookupCNAME
	LookupHost                 = nat.LookupHost
	LookupIP                   = nat.LookupIP
	LookupMX                   = nat.LookupMX
	LookupNS                   = nat.LookupNS
	LookupPort                 = nat.LookupPort
	LookupSRV                  = nat.LookupSRV
	LookupTXT                  = nat.LookupTXT
	ParseCIDR                  = nat.ParseCIDR
	ParseIP                    = nat.ParseIP
	ParseMAC                   = nat.ParseMAC
	ResolveIPAddr              = nat.ResolveIPAddr
	ResolveTCPAddr             = nat.ResolveTCPAddr
	ResolveUDPAddr             = nat.ResolveUDPAddr
	ResolveUnixAddr            = nat.ResolveUnixAddr
	SplitHostPort              = nat.SplitHostPort
	TCPAddrFromAddrPort        = nat.TCPAddrFromAddrPort
	UDPAddrFromAddrPort        = nat.UDPAddrFromAddrPort
)
