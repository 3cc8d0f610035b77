#pragma once
#include "RDataSource.hxx"
namespace ROOT {
class RDataFrame {
public:
  explicit RDataFrame(std::unique_ptr<RDF::RDataSource> s) : source(std::move(s)) {
  }
  std::shared_ptr<RDF::RDataSource> source;
};
} // namespace ROOT
