package checks

import (
	"fmt"
	"reflect"
	"unsafe"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/network"
	"verif/harness/sim"
)

// simNetwork is a network whose client is the one on the simulated link. The client of
// a network is not exported; where it is kept is found by its type. When it cannot be
// found, only real sockets are used.
func simNetwork(cl bacnet.Client) (*network.Network, bool) {
	n := &network.Network{Store: network.NewStore(), StoreID: "sim"}
	want := reflect.TypeOf((*bacnet.Client)(nil)).Elem()
	v := reflect.ValueOf(n).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == want {
			reflect.NewAt(want, unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(cl))
			return n, true
		}
	}
	return nil, false
}

// netDevice is the device as a caller of the network package gives it
func netDevice(d *sim.Device, id string) *network.Device {
	nd := &network.Device{Ip: d.EP.String(), Port: int(d.EP.Port), DeviceID: int(d.Instance), MaxApdu: d.MaxApdu, Segmentation: d.Seg, StoreID: id}
	if d.Net != 0 {
		nd.NetworkNumber = int(d.Net)
		nd.MacMSTP = int(d.Mac[0])
	}
	return nd
}

// realNetwork is a network on the loopback interface
func realNetwork(port int, viaStore bool) (*network.Network, error) {
	st := network.NewStore()
	if viaStore {
		if err := st.NewNetwork("real", "", "127.0.0.1", port, 8); err != nil {
			return nil, err
		}
		return st.GetNetwork("real")
	}
	n, err := network.New(&network.Network{Ip: "127.0.0.1", SubnetCIDR: 8, Port: port, Store: st, StoreID: "real"})
	if err == nil {
		if got, err := st.GetNetwork("real"); err != nil || got != n {
			return nil, fmt.Errorf("stored was %v, under its id is %v (%v)", n, got, err)
		}
	}
	return n, err
}
