package wazero

// A stand-in for the WebAssembly engine: the host package runs unchanged on
// it, while the harness plays the guest. It is active when ZZInstantiate is set.

import (
	"context"
	"reflect"

	"github.com/tetratelabs/wazero/api"
	"github.com/tetratelabs/wazero/internal/wasm"
)

// ZZHostFunc is a function of the host as the guest calls it.
type ZZHostFunc func(ctx context.Context, mod api.Module, params ...uint64) []uint64

// ZZInstantiate makes the module of a binary; host holds "module.name".
var ZZInstantiate func(ctx context.Context, binary []byte, host map[string]ZZHostFunc) (api.Module, error)

func zzMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

type zzRuntime struct {
	Runtime
	host map[string]ZZHostFunc
}

func zzNewRuntime() Runtime { return &zzRuntime{host: map[string]ZZHostFunc{}} }

func (r *zzRuntime) NewHostModuleBuilder(name string) HostModuleBuilder {
	return &zzBuilder{r: r, name: name}
}

type zzCompiled struct {
	CompiledModule
	bin []byte
}

func (*zzCompiled) Name() string                { return "" }
func (*zzCompiled) Close(context.Context) error { return nil }

func (r *zzRuntime) CompileModule(ctx context.Context, binary []byte) (CompiledModule, error) {
	return &zzCompiled{bin: append([]byte(nil), binary...)}, nil
}

func (r *zzRuntime) InstantiateModule(ctx context.Context, c CompiledModule, _ ModuleConfig) (api.Module, error) {
	return ZZInstantiate(ctx, c.(*zzCompiled).bin, r.host)
}

func (r *zzRuntime) InstantiateModuleFromBinary(ctx context.Context, b []byte) (api.Module, error) {
	return ZZInstantiate(ctx, b, r.host)
}

func (r *zzRuntime) Module(string) api.Module                              { return nil }
func (r *zzRuntime) Close(context.Context) error                           { return nil }
func (r *zzRuntime) CloseWithExitCode(ctx context.Context, _ uint32) error { return nil }

type zzBuilder struct {
	r    *zzRuntime
	name string
}

func (b *zzBuilder) ExportHostFunc(fn *wasm.HostFunc) {}

func (b *zzBuilder) NewFunctionBuilder() HostFunctionBuilder { return &zzFunc{b: b} }
func (b *zzBuilder) Compile(context.Context) (CompiledModule, error) {
	return &zzCompiled{}, nil
}

type zzHostModule struct{ api.Module }

func (zzHostModule) Close(context.Context) error                           { return nil }
func (zzHostModule) CloseWithExitCode(ctx context.Context, _ uint32) error { return nil }

func (b *zzBuilder) Instantiate(context.Context, Namespace) (api.Module, error) {
	return zzHostModule{}, nil
}

type zzFunc struct {
	b  *zzBuilder
	fn ZZHostFunc
}

func (f *zzFunc) WithGoFunction(fn api.GoFunction, params, results []api.ValueType) HostFunctionBuilder {
	f.fn = func(ctx context.Context, _ api.Module, a ...uint64) []uint64 {
		stack := make([]uint64, zzMax(len(a), len(results)))
		copy(stack, a)
		fn.Call(ctx, stack)
		return stack[:len(results)]
	}
	return f
}

func (f *zzFunc) WithGoModuleFunction(fn api.GoModuleFunction, params, results []api.ValueType) HostFunctionBuilder {
	f.fn = func(ctx context.Context, m api.Module, a ...uint64) []uint64 {
		stack := make([]uint64, zzMax(len(a), len(results)))
		copy(stack, a)
		fn.Call(ctx, m, stack)
		return stack[:len(results)]
	}
	return f
}

func (f *zzFunc) WithFunc(fn interface{}) HostFunctionBuilder {
	v := reflect.ValueOf(fn)
	f.fn = func(ctx context.Context, m api.Module, a ...uint64) []uint64 {
		in := []reflect.Value{}
		for i, k := 0, 0; i < v.Type().NumIn(); i++ {
			switch t := v.Type().In(i); {
			case t.Kind() == reflect.Interface && t.Implements(reflect.TypeOf((*context.Context)(nil)).Elem()):
				in = append(in, reflect.ValueOf(ctx))
			case t.Kind() == reflect.Interface:
				in = append(in, reflect.ValueOf(m))
			default:
				in = append(in, reflect.ValueOf(a[k]).Convert(t))
				k++
			}
		}
		out := []uint64{}
		for _, o := range v.Call(in) {
			out = append(out, o.Convert(reflect.TypeOf(uint64(0))).Uint())
		}
		return out
	}
	return f
}

func (f *zzFunc) WithName(string) HostFunctionBuilder              { return f }
func (f *zzFunc) WithParameterNames(...string) HostFunctionBuilder { return f }
func (f *zzFunc) WithResultNames(...string) HostFunctionBuilder    { return f }
func (f *zzFunc) Export(name string) HostModuleBuilder {
	f.b.r.host[f.b.name+"."+name] = f.fn
	return f.b
}
