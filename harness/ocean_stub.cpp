// The Ocean image library isn't available here: same answer as a build without it ("not handled").
#include <vrs/utils/PixelFrame.h>
namespace vrs::utils {
bool PixelFrame::normalizeToPixelFormatWithOcean(
    PixelFrame&, PixelFormat, const NormalizeOptions&) const {
  return false;
}
} // namespace vrs::utils
