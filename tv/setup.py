from .run import *
for w in ('harness', 'tomlkit'): build(w)
tmp = scratch()
try:
    Tlc(tmp).run('MC_Values', env=dict(JOBS=os.path.join(SPEC, 'smoke.ndjson')))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print('ready')
