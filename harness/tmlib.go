package PKG

// Helpers for packages that use the token manager.

import (
	"context"
	"fmt"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
)

type vRec struct{}

func (vRec) Record(string) {}

type vClaimsKey struct{}

func vClaimsFromCtx(ctx context.Context) jwt.MapClaims {
	c, _ := ctx.Value(vClaimsKey{}).(jwt.MapClaims)
	return c
}

type vNoLog struct{}

func (vNoLog) Errorf(string, ...any)     {}
func (vNoLog) Error(...any)              {}
func (vNoLog) Debug(...any)              {}
func (vNoLog) Debugf(string, ...any)     {}
func (vNoLog) Info(...any)               {}
func (vNoLog) Infof(string, ...any)      {}
func (vNoLog) Fatal(a ...any)            { panic(fmt.Sprint(a...)) }
func (vNoLog) Fatalf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }

func vNewTM() *tokenmanager.TokenManager {
	mk := vMust1(crypto.CreateAESMasterKeyForTest())
	store := storage.New(vTempDir(), mk)
	return vMust1(tokenmanager.New(store, nil, vNoLog{}))
}
