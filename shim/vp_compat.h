// Force-included. Lets vmecpp, written against Eigen 5 / recent abseil, build
// with the distribution's Eigen 3.4 (whose STL iterators are contiguous but do
// not advertise it) and abseil 20220623 (fewer transitive includes).
#pragma once
#ifdef __cplusplus
#include <iterator>
#include <span>
#include <Eigen/Core>
#include "absl/strings/str_format.h"
#include "absl/strings/str_cat.h"
template <class X>
struct std::iterator_traits<Eigen::internal::pointer_based_stl_iterator<X>> {
  using It = Eigen::internal::pointer_based_stl_iterator<X>;
  using iterator_category = std::random_access_iterator_tag;
  using iterator_concept = std::contiguous_iterator_tag;
  using value_type = typename It::value_type;
  using difference_type = typename It::difference_type;
  using pointer = typename It::pointer;
  using reference = typename It::reference;
};
static_assert(std::contiguous_iterator<Eigen::VectorXd::iterator>);
static_assert(std::contiguous_iterator<Eigen::VectorXd::const_iterator>);
static_assert(std::is_constructible_v<std::span<double>, Eigen::VectorXd&>);
#endif
