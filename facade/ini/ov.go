package ini

import (
	real "gopkg.in/ini.v1"

	"github.com/mozilla/crlite/go/zzvf/os"
)

func conv(s interface{}) (interface{}, error) {
	if p, ok := s.(string); ok {
		return os.ReadFile(p)
	}
	return s, nil
}

func LoadSources(opts real.LoadOptions, source interface{}, others ...interface{}) (*real.File, error) {
	src, err := conv(source)
	if err != nil {
		return nil, err
	}
	var os []interface{}
	for _, o := range others {
		x, err := conv(o)
		if err != nil {
			return nil, err
		}
		os = append(os, x)
	}
	return real.LoadSources(opts, src, os...)
}

func Load(source interface{}, others ...interface{}) (*real.File, error) {
	return LoadSources(real.LoadOptions{}, source, others...)
}
