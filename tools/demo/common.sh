# common.sh: build a demonstration from the sources of the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
# build PROGRAM.cpp source.cpp... : result in $work/demo
build() {
    main=$1; shift
    FL="-std=c++17 -O1 -g0 -w -DFUSE_USE_VERSION=29 -D_FILE_OFFSET_BITS=64 -I$here/stub -I$repo/sources -I$work -I/usr/include/fuse -fno-access-control"
    cp "$repo/protos/params.proto" "$work/" && (cd "$work" && protoc --cpp_out=. params.proto) || exit 99
    pids=""; objs=""
    for s in "$here/$main" "$work/params.pb.cc" $(for x in "$@"; do echo "$repo/sources/$x"; done); do
        o="$work/$(basename "$s").o"; objs="$objs $o"
        g++ $FL $DEMO_FLAGS -c "$s" -o "$o" & pids="$pids $!"
    done
    for p in $pids; do wait $p || { echo "does not compile"; exit 98; }; done
    g++ $DEMO_FLAGS $objs -o "$work/demo" -lprotobuf -lcryptopp -largon2 -lsqlite3 -lfuse -lpthread || { echo "does not link"; exit 97; }
}
BASE="mystring.cpp myutils.cpp exceptions.cpp crypto.cpp logger.cpp streams.cpp common_platform.cpp unix.cpp lock_enabled.cpp"
FULL="$BASE full_format.cpp file_table_v2.cpp files.cpp btree_dir.cpp fuse_high_level_ops_base.cpp xattr_name.cpp fuse_tracer_v2.cpp fuse2_workaround.cpp"
