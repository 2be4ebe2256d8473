#include "common.h"
using namespace hpp_proto;
VPROOT void vproot_merge_all(vp::All<> &a, const vp::All<> &b) { merge(a, b); }
VPROOT void vproot_merge_all_mv(vp::All<> &a, vp::All<> &b) { merge(a, std::move(b)); }
VPROOT void vproot_merge_tree(vp::Tree<keep> &a, const vp::Tree<keep> &b) { merge(a, b); }
