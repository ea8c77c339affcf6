// Force-included before every /repo source: Protobuf 3.21 has no
// MessageLite::SerializeAsCord, so route it through a string.
#include "absl/status/status.h"
#include "absl/strings/cord.h"
#include "google/protobuf/message.h"
#define SerializeAsCord() SerializeAsString()
#define SetPayload(uri, ...) SetPayload(uri, ::absl::Cord(__VA_ARGS__))
