#pragma once
struct TObject {
  virtual ~TObject() = default;
};
struct TKey : TObject {
  const char* GetClassName() const {
    return "";
  }
};
