// Stand-in: ROOT is not installed here. Nothing can be read.
#pragma once
#include "podio/Frame.h"
#include "podio/utilities/ReaderCommon.h"
#include "podio/utilities/ReaderUtils.h"
#include <map>
namespace podio {
struct ROOTReader : ReaderCommon {
  struct Data {
    std::optional<CollectionReadBuffers> getCollectionBuffers(const std::string&) {
      return std::nullopt;
    }
    CollectionIDTable getIDTable() const {
      return {};
    }
    std::unique_ptr<GenericParameters> getParameters() {
      return std::make_unique<GenericParameters>();
    }
    std::vector<std::string> getAvailableCollections() const {
      return {};
    }
  };
  void openFiles(const std::vector<std::string>&) {
    throw std::runtime_error("no ROOT");
  }
  std::unique_ptr<Data> readNextEntry(std::string_view, const std::vector<std::string>& = {}) {
    return nullptr;
  }
  std::unique_ptr<Data> readEntry(std::string_view, unsigned, const std::vector<std::string>& = {}) {
    return nullptr;
  }
  unsigned getEntries(std::string_view) const {
    return 0;
  }
  std::optional<std::map<std::string, SizeStats>> getSizeStats(std::string_view) {
    return std::nullopt;
  }
};
} // namespace podio
