//go:build !registry

package main

func registry() []*entry                           { return nil }
func services() []*service                         { return nil }
func svcResult(service, name string) interface{} { return nil }
