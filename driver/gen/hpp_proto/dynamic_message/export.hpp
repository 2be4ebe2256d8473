
#ifndef HPP_PROTO_DYNAMIC_MESSAGE_EXPORT_H
#define HPP_PROTO_DYNAMIC_MESSAGE_EXPORT_H

#ifdef HPP_PROTO_DYNAMIC_MESSAGE_STATIC_DEFINE
#  define HPP_PROTO_DYNAMIC_MESSAGE_EXPORT
#  define HPP_PROTO_DYNAMIC_MESSAGE_NO_EXPORT
#else
#  ifndef HPP_PROTO_DYNAMIC_MESSAGE_EXPORT
#    ifdef dynamic_message_EXPORTS
        /* We are building this library */
#      define HPP_PROTO_DYNAMIC_MESSAGE_EXPORT 
#    else
        /* We are using this library */
#      define HPP_PROTO_DYNAMIC_MESSAGE_EXPORT 
#    endif
#  endif

#  ifndef HPP_PROTO_DYNAMIC_MESSAGE_NO_EXPORT
#    define HPP_PROTO_DYNAMIC_MESSAGE_NO_EXPORT 
#  endif
#endif

#ifndef HPP_PROTO_DYNAMIC_MESSAGE_DEPRECATED
#  define HPP_PROTO_DYNAMIC_MESSAGE_DEPRECATED __attribute__ ((__deprecated__))
#endif

#ifndef HPP_PROTO_DYNAMIC_MESSAGE_DEPRECATED_EXPORT
#  define HPP_PROTO_DYNAMIC_MESSAGE_DEPRECATED_EXPORT HPP_PROTO_DYNAMIC_MESSAGE_EXPORT HPP_PROTO_DYNAMIC_MESSAGE_DEPRECATED
#endif

#ifndef HPP_PROTO_DYNAMIC_MESSAGE_DEPRECATED_NO_EXPORT
#  define HPP_PROTO_DYNAMIC_MESSAGE_DEPRECATED_NO_EXPORT HPP_PROTO_DYNAMIC_MESSAGE_NO_EXPORT HPP_PROTO_DYNAMIC_MESSAGE_DEPRECATED
#endif

#if 0 /* DEFINE_NO_DEPRECATED */
#  ifndef HPP_PROTO_DYNAMIC_MESSAGE_NO_DEPRECATED
#    define HPP_PROTO_DYNAMIC_MESSAGE_NO_DEPRECATED
#  endif
#endif

#endif /* HPP_PROTO_DYNAMIC_MESSAGE_EXPORT_H */
