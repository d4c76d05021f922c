
#ifndef PARSER_LIBRARY_EXPORT_H
#define PARSER_LIBRARY_EXPORT_H

#ifdef PARSER_LIBRARY_STATIC_DEFINE
#  define PARSER_LIBRARY_EXPORT
#  define PARSER_LIBRARY_NO_EXPORT
#else
#  ifndef PARSER_LIBRARY_EXPORT
#    ifdef parser_library_EXPORTS
        /* We are building this library */
#      define PARSER_LIBRARY_EXPORT 
#    else
        /* We are using this library */
#      define PARSER_LIBRARY_EXPORT 
#    endif
#  endif

#  ifndef PARSER_LIBRARY_NO_EXPORT
#    define PARSER_LIBRARY_NO_EXPORT 
#  endif
#endif

#ifndef PARSER_LIBRARY_DEPRECATED
#  define PARSER_LIBRARY_DEPRECATED __attribute__ ((__deprecated__))
#endif

#ifndef PARSER_LIBRARY_DEPRECATED_EXPORT
#  define PARSER_LIBRARY_DEPRECATED_EXPORT PARSER_LIBRARY_EXPORT PARSER_LIBRARY_DEPRECATED
#endif

#ifndef PARSER_LIBRARY_DEPRECATED_NO_EXPORT
#  define PARSER_LIBRARY_DEPRECATED_NO_EXPORT PARSER_LIBRARY_NO_EXPORT PARSER_LIBRARY_DEPRECATED
#endif

#if 0 /* DEFINE_NO_DEPRECATED */
#  ifndef PARSER_LIBRARY_NO_DEPRECATED
#    define PARSER_LIBRARY_NO_DEPRECATED
#  endif
#endif

#endif /* PARSER_LIBRARY_EXPORT_H */
