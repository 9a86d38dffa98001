package user

import (
	"errors"
	real "os/user"
)

// VFHome is the home directory; "" means that the user is unknown.
var VFHome = ""

func Current() (*real.User, error) {
	if VFHome == "" {
		return nil, errors.New("user: Current not implemented")
	}
	return &real.User{Uid: "1000", Gid: "1000", Username: "u", Name: "u", HomeDir: VFHome}, nil
}
