// The parts of Tensor and TensorStorage the sources under test use; the real ones do not build here.
#include <cstdlib>
#include <cstring>

#include "mllm/core/Tensor.hpp"
#include "mllm/core/TensorStorage.hpp"
#include "mllm/core/TensorViewImpl.hpp"

namespace mllm {

static size_t numelOf(const std::vector<int32_t>& s) {
  size_t n = 1;
  for (auto d : s) n *= d;
  return n;
}

TensorStorage::~TensorStorage() {
  if (ptr_ && mem_type_ != kParamsMMAP && mem_type_ != kManual) std::free(ptr_);
}

std::shared_ptr<TensorStorage> TensorStorage::create(const std::vector<int32_t>& shape, DataTypes dtype, const DeviceTypes& device) {
  auto s = std::make_shared<TensorStorage>();
  s->dtype_ = dtype;
  s->ptr_ = nullptr;
  MLLM_RT_ASSERT((numelOf(shape) % lanesOfType(dtype)) == 0);
  s->size_ = numelOf(shape) / lanesOfType(dtype) * bytesOfType(dtype);
  s->device_ = device;
  s->type_ = Storage::kTensor;
  return s;
}

Tensor::Tensor(const std::shared_ptr<TensorViewImpl>& impl) : impl_(impl) {}
Tensor Tensor::empty(const std::vector<int32_t>& shape, DataTypes dtype, DeviceTypes device) {
  return Tensor(TensorViewImpl::create(shape, TensorStorage::create(shape, dtype, device)));
}
Tensor& Tensor::alloc() {
  auto s = impl_->storage();
  if (!s->ptr_) s->ptr_ = std::malloc(s->size_ ? s->size_ : 1);
  return *this;
}
Tensor Tensor::zeros(const std::vector<int32_t>& shape, DataTypes dtype, DeviceTypes device) {
  auto t = empty(shape, dtype, device).alloc();
  std::memset(t.impl()->storage()->ptr_, 0, t.impl()->storage()->size_);
  return t;
}
std::vector<int32_t> Tensor::shape() const { return impl_->shape(); }
DataTypes Tensor::dtype() const { return impl_->dtype(); }
DeviceTypes Tensor::device() const { return impl_->device(); }
size_t Tensor::numel() const { return numelOf(impl_->shape()); }
Tensor& Tensor::setName(const std::string& name) {
  impl_->storage()->name_ = name;
  return *this;
}
Tensor& Tensor::setMemType(TensorMemTypes) { return *this; }
size_t Tensor::bytes() const { return impl_->size(); }
size_t Tensor::rank() const { return impl_->shape().size(); }
bool Tensor::isContiguous() const { return impl_->isContiguous(); }
Tensor Tensor::emptyLike(const Tensor& t) { return empty(t.shape(), t.dtype(), t.device()); }
uint32_t Tensor::uuid() const { return impl_->uuid(); }
std::vector<int32_t> Tensor::stride() const { return impl_->stride(); }

// a view of part of a tensor, as the slice operator makes it
Tensor Tensor::operator[](const SliceIndices& at) const {
  auto shape = impl_->shape(), stride = impl_->stride();
  MLLM_RT_ASSERT_EQ(at.size(), shape.size());
  int32_t off = impl_->storageOffset();
  for (size_t i = 0; i < shape.size(); ++i) {
    int32_t a = at[i].start_ == kAll ? 0 : at[i].start_, e = at[i].end_ == kAll ? shape[i] : at[i].end_;
    if (a < 0 && e - a == 1) e += shape[i];
    if (a < 0) a += shape[i];
    if (e < 0) e += shape[i];
    off += a * stride[i];
    shape[i] = e > a ? (e - a + at[i].step_ - 1) / at[i].step_ : 0;
    stride[i] *= at[i].step_;
  }
  return Tensor(TensorViewImpl::create(off, shape, stride, impl_->storage()));
}

// copies this one into the other; rows (the last dimension) are contiguous
void Tensor::copy2(const Tensor& to) {
  auto shape = impl_->shape();
  MLLM_RT_ASSERT(shape == to.impl_->shape());
  size_t row = shape.back() / lanesOfType(dtype()) * bytesOfType(dtype());
  std::vector<int32_t> at(shape.size(), 0);
  while (numel()) {
    std::memmove(to.impl_->offsettedPtr<char>(at), impl_->offsettedPtr<char>(at), row);
    int i = (int)shape.size() - 2;
    while (i >= 0 && ++at[i] == shape[i]) at[i--] = 0;
    if (i < 0) break;
  }
}

ComplexIndexingBlob::ComplexIndexingBlob(SliceIndicesPair p) : slice_indices_(p) {}
ComplexIndexingBlob::ComplexIndexingBlob(const std::vector<int32_t>& p) : vector_indices_(p) {}
ComplexIndexingBlob::ComplexIndexingBlob(const Tensor& p) : tensor_indices_(p) {}

}  // namespace mllm
