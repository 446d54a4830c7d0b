LEVEL = 'model_checking'
Q = ['ptree --keys 4 --depth 5 --split 8', 'ptree --keys 6 --perm 6 --depth 2', 'ptree --keys 8 --perm 8 --depth 1', 'psets --keys 5 --depth 0', 'objtree --keys 4 --depth 5', 'objtree --keys 6 --perm 6 --depth 2', 'objmap --keys 4 --depth 5', 'objmap --keys 6 --perm 6 --depth 2',
     'numtree --keys 4 --depth 5', 'numtree --keys 6 --perm 6 --depth 2', 'numtree --keys 8 --perm 8 --depth 1', 'numxtree --keys 4 --depth 5', 'numxtree --keys 6 --perm 6 --depth 2', 'strtree --keys 4 --depth 5', 'strtree --keys 6 --perm 6 --depth 2', 'floattree --keys 4 --depth 5', 'floattree --keys 6 --perm 6 --depth 2',
     'quadtree --keys 12 --depth 3', 'quadtree --keys 4 --depth 5', 'quadtree --keys 6 --perm 6 --depth 2', 'queue --depth 6', 'stack --depth 5', 'search --depth 1', 'list --depth 7', 'array --depth 4', 'range --depth 3', 'intmap --depth 4', 'heap --keys 7 --perm 6 --depth 2', 'heap --keys 8 --perm 8 --depth 0', 'dstr --depth 6', 'dstack --depth 8']
T = ['ptree --keys 4 --depth 6', 'ptree --keys 7 --perm 7 --depth 2', 'ptree --keys 6 --perm 6 --depth 3', 'psets --keys 6 --depth 0', 'objtree --keys 4 --depth 6', 'objtree --keys 6 --perm 6 --depth 3', 'objmap --keys 4 --depth 6', 'objmap --keys 6 --perm 6 --depth 3', 'numtree --keys 4 --depth 6', 'numtree --keys 6 --perm 6 --depth 3', 'numtree --keys 7 --perm 7 --depth 2', 'numxtree --keys 4 --depth 6', 'numxtree --keys 6 --perm 6 --depth 3', 'strtree --keys 4 --depth 6', 'strtree --keys 6 --perm 6 --depth 3', 'floattree --keys 4 --depth 6', 'floattree --keys 6 --perm 6 --depth 3',
     'quadtree --keys 12 --depth 4', 'quadtree --keys 6 --perm 6 --depth 3', 'queue --depth 8', 'stack --depth 6', 'search --depth 1', 'list --depth 9', 'array --depth 5', 'range --depth 4', 'intmap --depth 5', 'heap --keys 7 --perm 6 --depth 3', 'heap --keys 8 --perm 8 --depth 1', 'dstr --depth 7', 'dstack --depth 10']
A = ['ptree --keys 4 --depth 3', 'psets --keys 4 --depth 0', 'objtree --keys 4 --depth 3', 'objmap --keys 4 --depth 3', 'numtree --keys 4 --depth 3', 'numxtree --keys 4 --depth 3', 'strtree --keys 4 --depth 3', 'floattree --keys 4 --depth 3', 'quadtree --keys 6 --depth 3', 'queue --depth 3', 'stack --depth 3', 'list --depth 5', 'array --depth 2', 'range --depth 2', 'intmap --depth 2', 'heap --keys 5 --perm 4 --depth 2', 'dstr --depth 4', 'dstack --depth 4']
def run(ctx):
    ctx.build('fo'); ctx.build('asan')
    exe = ctx.cc('fo', 'cont.c'); exa = ctx.cc('asan', 'cont.c')
    ctx.run([[exe, '--what', *p.replace(' --split 8', '').split()] for p in (T if ctx.thorough else Q)], label='operation sequences')
    ctx.run([[exa, '--what', *p.split()] for p in A], label='operation sequences under the address sanitizer', env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1'})
    ctx.extra['rule'] = 'state = operation prefix after which the full contents are compared with a reference model; transition = one operation; all sequences of the given depth over the given keys, also after inserting the keys in every order'
