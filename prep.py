"""Prepare rustc's LLVM IR for the symbolic executor: functions the executor models itself lose their
bodies (panic machinery, the allocator, the random hasher seed); functions it may model stay out of line."""
import re, sys

STRIP = re.compile(r'@"?[\w.$]*(4core9panicking|3std9panicking(?!12catch_unwind)|___rustc\d+___rust_(alloc|dealloc|realloc|alloc_zeroed|no_alloc)'
                   r'|hashmap_random_keys|18handle_alloc_error|alloc7raw_vec12handle_error|_7___rustc17rust_begin_unwind|capacity_overflow)')
NOINLINE = re.compile(r'BuildHasher8hash_one|5alloc3fmt6format12format_inner|13DefaultHasher\w*6Hasher(5write|6finish|9write_str)')


def prep(src, dst):
    out, skip = [], False
    for l in open(src):
        if skip:
            if l.startswith('}'):
                skip = False
            continue
        if l.startswith('define '):
            name = re.search(r'@"?([\w.$]+)', l).group(0)
            if STRIP.match(name):
                d = l.rstrip().rstrip('{').rstrip()
                d = re.sub(r'^define (internal |hidden |dso_local |weak_odr |linkonce_odr )*', 'declare ', d)
                d = re.sub(r' personality ptr @\w+', '', d)
                d = re.sub(r' !\w+ !\d+', '', d)
                d = re.sub(r' comdat.*$', '', d)
                d = re.sub(r' align \d+$', '', d)
                out.append(d + '\n')
                skip = True
                continue
            if NOINLINE.search(name):
                l = re.sub(r'unnamed_addr ', 'unnamed_addr noinline ', l, count=1)
        out.append(l)
    with open(dst, 'w') as f:
        f.writelines(out)


if __name__ == '__main__':
    prep(sys.argv[1], sys.argv[2])
