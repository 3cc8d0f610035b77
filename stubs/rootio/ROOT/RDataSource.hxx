#pragma once
// Stand-in for ROOT::RDF::RDataSource, the interface that RDataFrame uses, in the order documented there:
// SetNSlots once, GetColumnReaders before the loops, then for each loop Initialize, GetEntryRanges until there are none,
// for each range InitSlot, SetEntry and FinalizeSlot, and Finalize at the end.
#include "../rootstub.h"
#include <typeinfo>
#include <utility>
using ULong64_t = unsigned long long;
namespace ROOT {
namespace RDF {
  class RDataSource {
  public:
    virtual ~RDataSource() = default;
    virtual void SetNSlots(unsigned int nSlots) = 0;
    virtual const std::vector<std::string>& GetColumnNames() const = 0;
    virtual bool HasColumn(std::string_view) const = 0;
    virtual std::string GetTypeName(std::string_view) const = 0;
    template <typename T>
    std::vector<T**> GetColumnReaders(std::string_view columnName) {
      std::vector<T**> v;
      for (auto* p : GetColumnReadersImpl(columnName, typeid(T))) {
        v.push_back(static_cast<T**>(p));
      }
      return v;
    }
    virtual std::vector<std::pair<ULong64_t, ULong64_t>> GetEntryRanges() = 0;
    virtual bool SetEntry(unsigned int slot, ULong64_t entry) = 0;
    virtual void Initialize() {
    }
    virtual void InitSlot(unsigned int, ULong64_t) {
    }
    virtual void FinalizeSlot(unsigned int) {
    }
    virtual void Finalize() {
    }
    virtual std::string GetLabel() {
      return "Custom Datasource";
    }

  protected:
    virtual std::string AsString() {
      return "generic data source";
    }
    virtual std::vector<void*> GetColumnReadersImpl(std::string_view name, const std::type_info&) = 0;
  };
} // namespace RDF
} // namespace ROOT
