// Package codes is a stand-in for the package of the same name, which is not in the module cache.
package codes

type Code byte

const Nil Code = 0xc0
