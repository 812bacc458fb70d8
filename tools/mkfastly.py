#!/usr/bin/env python3
"""Copy the Fastly SDK and give its host calls hooks (the real ones only exist
inside Fastly's WebAssembly runtime).  usage: mkfastly.py GOMODCACHE OUT"""
import os, shutil, sys
src = os.path.join(sys.argv[1], "github.com/fastly/compute-sdk-go@v1.3.3")
out = sys.argv[2]
if os.path.isdir(out):
    sys.exit(0)
tmp = out + ".%d" % os.getpid()
shutil.copytree(src, tmp, copy_function=shutil.copyfile,
                ignore=shutil.ignore_patterns("_examples", "integration_tests", "*_test.go"))
for d, _, _ in os.walk(tmp):
    os.chmod(d, 0o755)


def patch(rel, old, new):
    p = os.path.join(tmp, rel)
    s = open(p).read()
    assert s.count(old) == 1, (rel, old)
    open(p, "w").write(s.replace(old, new))


patch("cache/simple/" + [f for f in os.listdir(tmp + "/cache/simple") if "func GetOrSet(" in open(tmp + "/cache/simple/" + f).read()][0],
      "func GetOrSet(key []byte, setFn func() (CacheEntry, error)) (io.ReadCloser, error) {\n",
      "// VerifGetOrSet replaces GetOrSet.\nvar VerifGetOrSet func(key []byte, setFn func() (CacheEntry, error)) (io.ReadCloser, error)\n\n"
      "func GetOrSet(key []byte, setFn func() (CacheEntry, error)) (io.ReadCloser, error) {\n\tif h := VerifGetOrSet; h != nil {\n\t\treturn h(key, setFn)\n\t}\n")
patch("fsthttp/request.go",
      "func (req *Request) Send(ctx context.Context, backend string) (*Response, error) {\n",
      "// VerifSend replaces Send.\nvar VerifSend func(ctx context.Context, req *Request, backend string) (*Response, error)\n\n"
      "func (req *Request) Send(ctx context.Context, backend string) (*Response, error) {\n\tif h := VerifSend; h != nil {\n\t\treturn h(ctx, req, backend)\n\t}\n")
cs = "configstore/" + [f for f in os.listdir(tmp + "/configstore") if "func Open(" in open(tmp + "/configstore/" + f).read()][0]
patch(cs, "func Open(name string) (*Store, error) {\n",
      "// VerifConfig replaces the stores.\nvar VerifConfig func(key string) (string, error)\n\n"
      "func Open(name string) (*Store, error) {\n\tif VerifConfig != nil {\n\t\treturn &Store{}, nil\n\t}\n")
patch(cs, "func (s *Store) Get(key string) (string, error) {\n",
      "func (s *Store) Get(key string) (string, error) {\n\tif h := VerifConfig; h != nil {\n\t\treturn h(key)\n\t}\n")
os.rename(tmp, out)
