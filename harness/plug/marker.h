#pragma once
#include <QString>
struct __attribute__((visibility("default"))) Marker { virtual ~Marker() {} virtual QString who() const = 0; };
