// Names every public C++ entry point, so that the front end instantiates it.
// Parsed only, never compiled to code or run.
#include <set>
#include <map>
#include <forward_list>
#include <iterator>
#include "z5/attributes.hxx"
#include "z5/common.hxx"
#include "z5/dataset.hxx"
#include "z5/factory.hxx"
#include "z5/handle.hxx"
#include "z5/metadata.hxx"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/broadcast.hxx"
#include "z5/util/for_each.hxx"
#include "z5/util/functions.hxx"
#include "z5/util/threadpool.hxx"
#ifdef WITH_S3
#include "z5/s3/handle.hxx"
#include "z5/s3/store.hxx"
#endif

namespace z5_probe {
    using namespace z5;

    template<class T>
    void typed(std::unique_ptr<Dataset> & ds, const types::ShapeType & off, T * data,
               const types::ShapeType & shape, const types::ShapeType & strides, T scalar) {
        multiarray::ArrayView<T> out{data, shape, strides};
        multiarray::ConstArrayView<T> in{data, shape, strides};
        multiarray::readSubarray<T>(ds, out, off.begin(), 4);
        multiarray::writeSubarray<T>(ds, in, off.begin(), 4);
        multiarray::readSubarray<T>(*ds, out, off.begin(), 4);
        multiarray::writeSubarray<T>(*ds, in, off.begin(), 4);
        multiarray::writeScalar<T>(*ds, off.begin(), shape.begin(), scalar, 4);
        multiarray::writeScalar<T>(ds, off.begin(), shape.begin(), scalar, 4);
        std::set<T> u; std::map<T, std::size_t> m;
        util::unique<T>(*ds, 4, u);
        util::uniqueWithCounts<T>(*ds, 4, m);
        util::removeTrivialChunks<T>(*ds, 4, true, scalar);
    }

    template<class FILE_, class GROUP, class DATASET>
    void backend(const FILE_ & f, const GROUP & g, const DATASET & d, const std::string & key,
                 const types::ShapeType & shape, nlohmann::json & j, std::vector<std::string> & names) {
        createFile(f, true, 2);
        createGroup(f, key, 2);
        createGroup(g, key, 3);
        GROUP sub(f, key); GROUP sub2(g, key);
        DATASET dd(f, key); DATASET dd2(g, key);
        auto ds = openDataset(f, key);
        auto ds2 = openDataset(g, key);
        auto ds3 = createDataset(f, key, "float32", shape, shape, "blosc", j, 0., ".", 2, "default", shape);
        auto ds4 = createDataset(g, key, "float32", shape, shape, "blosc", j, 0., ".", 2, "default", shape);
        types::CompressionOptions copts;
        auto ds5 = createDataset(g, key, "float32", shape, shape, "blosc", copts, 0., ".", 2, "default", shape);
        DatasetMetadata md;
        auto ds6 = createDataset(g, key, md);
        writeAttributes(f, j); writeAttributes(g, j); writeAttributes(d, j);
        readAttributes(f, j); readAttributes(g, j); readAttributes(d, j);
        removeAttribute(f, key); removeAttribute(g, key); removeAttribute(d, key);
        isSubGroup(g, key); isSubGroup(f, key);
        f.exists(); f.create(); f.remove(); f.keys(names); f.in(key);
        g.exists(); g.create(); g.remove(); g.keys(names); g.in(key);
        d.exists(); d.create(); d.remove();
        relativePath(f, g); relativePath(g, g);
    }

    void run(const filesystem::handle::File & f, const filesystem::handle::Group & g,
             const filesystem::handle::Dataset & d, const filesystem::handle::Chunk & c,
             types::ShapeType & s, nlohmann::json & j, std::vector<std::string> & names,
             std::unique_ptr<Dataset> & ds, void * p) {
        backend(f, g, d, "k", s, j, names);
        c.exists(); c.create(); c.remove();
        #ifdef WITH_S3
        {
            s3::handle::File sf("b"); s3::handle::Group sg(sf, "k"); s3::handle::Dataset sd(sg, "k");
            s3::handle::Chunk sc(sd, s, s, s);
            backend(sf, sg, sd, "k", s, j, names);
            sc.exists(); sc.create(); sc.remove();
        }
        #endif
        typed<int8_t>(ds, s, (int8_t *)p, s, s, 0); typed<int16_t>(ds, s, (int16_t *)p, s, s, 0);
        typed<int32_t>(ds, s, (int32_t *)p, s, s, 0); typed<int64_t>(ds, s, (int64_t *)p, s, s, 0);
        typed<uint8_t>(ds, s, (uint8_t *)p, s, s, 0); typed<uint16_t>(ds, s, (uint16_t *)p, s, s, 0);
        typed<uint32_t>(ds, s, (uint32_t *)p, s, s, 0); typed<uint64_t>(ds, s, (uint64_t *)p, s, s, 0);
        typed<float>(ds, s, (float *)p, s, s, 0); typed<double>(ds, s, (double *)p, s, s, 0);
        util::parallel_for_each_chunk(*ds, 4, [](int, const Dataset &, const types::ShapeType &){});
        util::parallel_for_each_chunk_in_roi(*ds, s, s, 4, [](int, const Dataset &, const types::ShapeType &){});
        util::parallel_for_each_block(*ds, s, 4, [](int, const Dataset &, const types::ShapeType &, const types::ShapeType &){});
        util::parallel_for_each_block_in_roi(*ds, s, s, s, 4, [](int, const Dataset &, const types::ShapeType &, const types::ShapeType &){});
        util::removeDataset(*ds, 4);
        util::ThreadPool pool(4);
        util::parallel_foreach(pool, 10, [](int, int64_t){});
        std::vector<int> v;
        util::parallel_foreach(pool, v.begin(), v.end(), [](int, int){});
        std::forward_list<int> vl;
        util::parallel_foreach(pool, vl.begin(), vl.end(), [](int, int){});
        std::istream_iterator<int> vi, ve;
        util::parallel_foreach(pool, vi, ve, [](int, int){});
        getAvailableCodecs(); getAvailableBackends();
    }
}
