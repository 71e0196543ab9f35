//go:build verifcrash

package main

import "github.com/syndtr/goleveldb/leveldb/storage"

func init() { armCrash = storage.VerifArm }
