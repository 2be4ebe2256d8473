// one tag (at most 6 bytes are looked at) and one scalar (at most 10) are read behind a position without a comparison
#include <hpp_proto/binpb/deserialize.hpp>
namespace s = hpp_proto::pb_serializer;
static_assert(s::slope_size >= 6 + 10, "[slope] the overlap between input regions is shorter than one tag and one scalar");
static_assert(s::patch_buffer_size >= 2 * s::slope_size, "[patch] a patch buffer does not hold the overlap of two chunks");
