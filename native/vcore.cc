// Python access to the parts of NNTile's C++ interface that its own Python module does not expose:
// single-tile operations, tiles over user memory, half-precision/boolean/integer tiles as raw bytes.
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include <nntile.hh>
#include <cstring>

using namespace nntile;
namespace py = pybind11;

template<typename T> py::bytes tile_bytes(const tile::Tile<T> &t)
{
    auto l = t.acquire(STARPU_R);
    py::bytes r((const char *)l.get_ptr(), t.nelems * sizeof(T));
    l.release();
    return r;
}
template<typename T> void tile_set_bytes(const tile::Tile<T> &t, py::bytes b)
{
    std::string s = b;
    if(s.size() != t.nelems * sizeof(T)) throw std::runtime_error("vcore: wrong number of bytes");
    auto l = t.acquire(STARPU_W);
    std::memcpy(l.get_ptr(), s.data(), s.size());
    l.release();
}
template<typename T> void def_tile(py::module_ &m, const char *name, bool with_class)
{
    using namespace nntile::tile;
    if(with_class)
        py::class_<Tile<T>, TileTraits>(m, name, py::multiple_inheritance(), py::module_local())
            .def(py::init<const TileTraits &>()).def("unregister", &Tile<T>::unregister);
    m.def("bytes", &tile_bytes<T>);
    m.def("set_bytes", &tile_set_bytes<T>);
}
// Tile over memory owned by the caller (a writable numpy array kept alive by the caller)
template<typename T> tile::Tile<T> user_tile(const std::vector<Index> &shape, py::array_t<T, py::array::f_style> a,
        Index nelems)
{
    return tile::Tile<T>(shape, a.mutable_data(), nelems);
}

template<typename T> void ops(py::module_ &m, const std::string &s)
{
    using namespace nntile::tile;
#define D1(name) m.def((#name "_async_" + s).c_str(), &name##_async<T>); m.def((#name "_" + s).c_str(), &name<T>);
    D1(adam_step) D1(adamw_step) D1(add) D1(add_fiber) D1(add_scalar) D1(add_slice) D1(add_slice3)
    D1(addcdiv) D1(clear) D1(copy) D1(copy_intersection) D1(dgelu) D1(dgelutanh) D1(drelu) D1(fill)
    D1(gelu) D1(gelu_backward) D1(gelutanh) D1(gelutanh_backward) D1(gelutanh_inplace) D1(hypot)
    D1(logsumexp) D1(mask_scalar) D1(maximum) D1(maxsumexp) D1(norm_slice) D1(normalize) D1(nrm2)
    D1(pow) D1(prod) D1(prod_fiber) D1(prod_fiber3) D1(prod_slice) D1(randn) D1(relu)
    D1(relu_backward) D1(relu_forward) D1(scal) D1(scal_inplace) D1(softmax) D1(softmax_inplace)
    D1(sqrt) D1(sqrt_inplace) D1(subtract_indexed_outputs) D1(sum_fiber) D1(sum_slice) D1(sumnorm)
    D1(sumprod_fiber) D1(sumprod_slice) D1(total_sum_accum)
    m.def(("gemm_async_" + s).c_str(), &gemm_async<T, T>); m.def(("gemm_" + s).c_str(), &gemm<T, T>);
    m.def(("axpy_async_" + s).c_str(), py::overload_cast<T, const Tile<T> &, const Tile<T> &>(&axpy_async<T>));
    m.def(("axpy_" + s).c_str(), py::overload_cast<T, const Tile<T> &, const Tile<T> &>(&axpy<T>));
    m.def(("axpy_async_" + s).c_str(), py::overload_cast<const Tile<T> &, const Tile<T> &, const Tile<T> &>(&axpy_async<T>));
    m.def(("axpy_" + s).c_str(), py::overload_cast<const Tile<T> &, const Tile<T> &, const Tile<T> &>(&axpy<T>));
}

PYBIND11_MODULE(vcore, m)
{
    py::module_::import("nntile_core");
    auto t = m.def_submodule("tile");
    def_tile<fp32_t>(t, "Tile_fp32", false);
    def_tile<fp64_t>(t, "Tile_fp64", false);
    def_tile<fp16_t>(t, "Tile_fp16", true);
    def_tile<Index>(t, "Tile_int64", true);
    def_tile<bool_t>(t, "Tile_bool", true);
    t.def("user_tile_fp32", &user_tile<fp32_t>, py::arg("shape"), py::arg("array").noconvert(), py::arg("nelems"));
    t.def("user_tile_fp64", &user_tile<fp64_t>, py::arg("shape"), py::arg("array").noconvert(), py::arg("nelems"));
    // tile of a tensor, for the element types whose tile class the stock module does not register
    t.def("get_tile", [](const tensor::Tensor<fp16_t> &x, Index i) { return x.get_tile(i); });
    t.def("get_tile", [](const tensor::Tensor<Index> &x, Index i) { return x.get_tile(i); });
    t.def("get_tile", [](const tensor::Tensor<bool_t> &x, Index i) { return x.get_tile(i); });
    t.def("get_tile", [](const tensor::Tensor<fp32_t> &x, Index i) { return x.get_tile(i); });
    t.def("get_tile", [](const tensor::Tensor<fp64_t> &x, Index i) { return x.get_tile(i); });
    t.def("scatter_fp16", [](const tensor::Tensor<fp16_t> &a, const tensor::Tensor<fp16_t> &b) { tensor::scatter<fp16_t>(a, b); });
    t.def("gather_fp16", [](const tensor::Tensor<fp16_t> &a, const tensor::Tensor<fp16_t> &b) { tensor::gather<fp16_t>(a, b); });
    ops<fp32_t>(t, "fp32");
    ops<fp64_t>(t, "fp64");
    t.def("copy_int64", &tile::copy<Index>);
    t.def("copy_intersection_int64", &tile::copy_intersection<Index>);
    t.def("traits", [](const tile::TileTraits &x) {
        std::vector<std::pair<Index, Index>> ms;
        for(auto &p : x.matrix_shape) ms.push_back({p[0], p[1]});
        return std::make_tuple(x.ndim, x.shape, x.stride, x.nelems, ms); });
    t.def("leftover", [](const tensor::TensorTraits &x) { return x.leftover_shape; });
    t.def("contains", [](const tile::TileTraits &x, const std::vector<Index> &i) { return x.contains_index(i); });
    // address of the buffer of a fresh tile, which is never released
    m.def("tile_address", [](Index n) {
        auto *x = new tile::Tile<fp32_t>(tile::TileTraits({n}));
        auto l = x->acquire(STARPU_W);
        return (size_t)l.get_ptr(); });
    t.def("nblocking_wait", []() { starpu_task_wait_for_all(); });
}
