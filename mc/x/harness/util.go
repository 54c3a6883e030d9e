//go:build go1.23

package main

import (
	"context"
	"encoding/json"
	"os"
	"path/filepath"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"gopkg.in/yaml.v2"
)

type ctxKey = string

func ctxWith(kv ...string) context.Context {
	c := context.Background()
	for i := 0; i+1 < len(kv); i += 2 {
		c = context.WithValue(c, ctxKey(kv[i]), kv[i+1])
	}
	return c
}

func toJSON(c *api.Config) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

func toYAML(c *api.Config) []byte {
	b, err := yaml.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

func getManager() api.Manager { return log4g.GetManager() }

func getLogger(n string) api.Logger { return log4g.GetLogger(n) }

func remove(n string) { os.Remove(filepath.Join(fsRoot, n)) }
