// Force-included (g++ -include) by /opt/vp/build.sh. The project is developed with Visual C++ only.
// This supplies what its code takes from Microsoft's standard library and libstdc++ does not give:
//  1. standard headers that Microsoft's headers include transitively (unqualified math names included);
//  2. std::powf, which is standard and missing from libstdc++ 13;
//  3. the name _Vector_iterator<_Vector_val<_Simple_types<T>>>, Microsoft's std::vector<T>::iterator;
//  4. a tolower that is not ambiguous as a bare function name inside namespace happyml;
//  5. the constructor std::exception(const char *).
// It holds nothing of the project and nothing of another library.
#ifndef VP_MSVC_COMPAT_HPP
#define VP_MSVC_COMPAT_HPP

#include <bits/stdc++.h>
#include <math.h>

namespace std {
    using ::powf;

    template<typename T>
    struct _Simple_types {
        using value_type = T;
    };

    template<typename T>
    struct _Vector_val {
        using value_type = typename T::value_type;
    };

    template<typename T>
    using _Vector_iterator = typename vector<typename T::value_type>::iterator;

    class vp_message_exception : public exception {
    public:
        explicit vp_message_exception(const char *message) : message_(message) {}

        const char *what() const noexcept override { return message_.c_str(); }

    private:
        string message_;
    };
}

namespace happyml {
    using ::tolower;
}

// Function-like on purpose: only "exception(...)" is rewritten, so "catch (const std::exception &e)" is untouched.
// The standard headers above have been read by now, so theirs is not rewritten either.
#define exception(message) vp_message_exception(message)

#endif
