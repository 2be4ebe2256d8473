// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           vp.proto

#pragma once
#include <hpp_proto/file_descriptor_pb.hpp>


namespace hpp_proto::file_descriptors::vp_proto {

using namespace std::literals::string_view_literals;
inline constexpr ::hpp_proto::file_descriptor_pb file_descriptor_{
  "\n\bvp.proto\022\002vp\"$\n\004Leaf\022\n\n\001v\030\001(\005R\001v\022\020\n\004name\030\002(\tR\004name\"\233\003\n\004Tree\022\022\n\005label\030\001(\tR\005label\022\032\n\004left\030\002(\v2\b.vp.TreeR\004left\022\037\n\003grp\030\003(\v2\b.vp.TreeR\003grpB\005\252\001\002(\002\022\034\n\004kids\030\004 \003(\v2\b.vp.TreeR\004kids\022%\n\005gkids\030\005 \003(\v2\b.vp.TreeR\005gkidsB\005\252\001\002(\002\022)\n\005named\030\006 \003(\v2\023.vp.Tree.NamedEntryR\005named\022\020\n\003txt\030\t(\tH\000R\003txt\022\022\n\004blob\030\n(\fH\000R\004blob\022\032\n\002ce\030\v(\0162\n.vp.ClosedH\000R\002ce\022\020\n\003num\030\f(\005H\000R\003num\022\034\n\004leaf\030\r(\v2\b.vp.LeafH\000R\004leaf\022\030\n\003one\030\016(\v2\b.vp.LeafR\003one\032>\n\nNamedEntry\022\016\n\003key\030\001(\tR\003key\022\034\n\005value\030\002(\v2\b.vp.TreeR\005value:\0028\001B\006\n\004pick\"\374\017\n\003All\022\021\n\005f_i32\030\001(\005R\004fI32\022\021\n\005f_i64\030\002(\003R\004fI64\022\021\n\005f_u32\030\003(\rR\004fU32\022\021\n\005f_u64\030\004(\004R\004fU64\022\021\n\005f_s32\030\005(\021R\004fS32\022\021\n\005f_s64\030\006(\022R\004fS64\022\021\n\005f_f32\030\a(\aR\004fF32\022\021\n\005f_f64\030\b(\006R\004fF64\022\023\n\006f_sf32\030\t(\017R\005fSf32\022\023\n\006f_sf64\030\n(\020R\005fSf64\022\021\n\005f_flt\030\v(\002R\004fFlt\022\017\n\005f_dbl\030\fR\004fDbl\022\023\n\006f_bool\030\r(\bR\005fBool\022\021\n\005f_str\030\016(\tR\004fStr\022\025\n\af_bytes\030\017(\fR\006fBytes\022\035\n\006f_open\030\020(\0162\b.vp.OpenR\005fOpen\022#\n\bf_closed\030\021(\0162\n.vp.ClosedR\afClosed\022\033\n\005f_msg\030\022(\v2\b.vp.LeafR\004fMsg\022\"\n\005f_grp\030\023(\v2\b.vp.LeafR\004fGrpB\005\252\001\002(\002\022\030\n\005i_i32\030\037(\005R\004iI32B\005\252\001\002\b\002\022\030\n\005i_str\030 (\tR\004iStrB\005\252\001\002\b\002\022\034\n\ai_bytes\030!(\fR\006iBytesB\005\252\001\002\b\002\022\032\n\006i_bool\030\"(\bR\005iBoolB\005\252\001\002\b\002\022$\n\006i_open\030#(\0162\b.vp.OpenR\005iOpenB\005\252\001\002\b\002\022\026\n\005i_dbl\030$R\004iDblB\005\252\001\002\b\002\022\032\n\006rq_str\030%(\tR\005rqStrB\005\252\001\002\b\003\022,\n\trq_closed\030&(\0162\n.vp.ClosedR\brqClosedB\005\252\001\002\b\003\022\023\n\005p_i32\030) \003(\005R\004pI32\022\023\n\005p_s64\030* \003(\022R\004pS64\022\023\n\005p_f32\030+ \003(\aR\004pF32\022\021\n\005p_dbl\030, \003R\004pDbl\022\025\n\006p_bool\030- \003(\bR\005pBool\022\037\n\006p_open\030. \003(\0162\b.vp.OpenR\005pOpen\022%\n\bp_closed\030/ \003(\0162\n.vp.ClosedR\apClosed\022\023\n\005p_u64\0300 \003(\004R\004pU64\022\032\n\005u_i32\0303 \003(\005R\004uI32B\005\252\001\002\030\002\022\032\n\005u_s64\0304 \003(\022R\004uS64B\005\252\001\002\030\002\022\032\n\005u_f32\0305 \003(\aR\004uF32B\005\252\001\002\030\002\022\034\n\006u_bool\0307 \003(\bR\005uBoolB\005\252\001\002\030\002\022&\n\006u_open\0308 \003(\0162\b.vp.OpenR\005uOpenB\005\252\001\002\030\002\022,\n\bu_closed\0309 \003(\0162\n.vp.ClosedR\auClosedB\005\252\001\002\030\002\022\023\n\005r_str\030: \003(\tR\004rStr\022\027\n\ar_bytes\030; \003(\fR\006rBytes\022\035\n\005r_msg\030< \003(\v2\b.vp.LeafR\004rMsg\022$\n\005r_grp\030= \003(\v2\b.vp.LeafR\004rGrpB\005\252\001\002(\002\022#\n\004m_ss\030G \003(\v2\020.vp.All.MSsEntryR\003mSs\022#\n\004m_im\030H \003(\v2\020.vp.All.MImEntryR\003mIm\022#\n\004m_bb\030I \003(\v2\020.vp.All.MBbEntryR\003mBb\022#\n\004m_so\030J \003(\v2\020.vp.All.MSoEntryR\003mSo\022#\n\004m_uc\030K \003(\v2\020.vp.All.MUcEntryR\003mUc\022#\n\004m_sd\030L \003(\v2\020.vp.All.MSdEntryR\003mSd\022\023\n\005o_i32\030Q(\005H\000R\004oI32\022\023\n\005o_str\030R(\tH\000R\004oStr\022\027\n\ao_bytes\030S(\fH\000R\006oBytes\022\035\n\005o_msg\030T(\v2\b.vp.LeafH\000R\004oMsg\022$\n\005o_grp\030U(\v2\b.vp.LeafH\000R\004oGrpB\005\252\001\002(\002\022\037\n\006o_open\030V(\0162\b.vp.OpenH\000R\005oOpen\022%\n\bo_closed\030W(\0162\n.vp.ClosedH\000R\aoClosed\022\025\n\006o_bool\030X(\bH\000R\005oBool\022\021\n\005o_dbl\030YH\000R\004oDbl\022\037\n\006o_tree\030Z(\v2\b.vp.TreeH\000R\005oTree\0322\n\bMSsEntry\022\016\n\003key\030\001(\tR\003key\022\022\n\005value\030\002(\tR\005value:\0028\001\032<\n\bMImEntry\022\016\n\003key\030\001(\005R\003key\022\034\n\005value\030\002(\v2\b.vp.LeafR\005value:\0028\001\0322\n\bMBbEntry\022\016\n\003key\030\001(\bR\003key\022\022\n\005value\030\002(\fR\005value:\0028\001\032<\n\bMSoEntry\022\016\n\003key\030\001(\tR\003key\022\034\n\005value\030\002(\0162\b.vp.OpenR\005value:\0028\001\032\?\n\bMUcEntry\022\016\n\003key\030\001(\004R\003key\022\037\n\005value\030\002(\0162\v.vp.ClosedZR\005value:\0028\001\0320\n\bMSdEntry\022\016\n\003key\030\001(\017R\003key\022\020\n\005value\030\002R\005value:\0028\001B\004\n\002o1*8\n\004Open\022\v\n\tOPEN_ZERO\022\f\n\bOPEN_ONE\020\001\022\025\n\bOPEN_NEG\020\377\377\377\377\377\377\377\377\377\001*\?\n\006Closed\022\016\n\nCLOSED_ONE\020\001\022\016\n\nCLOSED_TWO\020\002\022\017\n\vCLOSED_FIVE\020\005\032\004:\002\020\002*(\n\aClosedZ\022\t\n\aCZ_ZERO\022\f\n\bCZ_THREE\020\003\032\004:\002\020\002b\beditionsp\350\a"sv
};

inline auto file_descriptor_set(){
  return ::hpp_proto::distinct_file_descriptor_pb_array{
    ::hpp_proto::file_descriptors::vp_proto::file_descriptor_,
  };
}
} // namespace hpp_proto::file_descriptors::vp_proto

// clang-format on
