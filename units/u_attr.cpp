#include "common.h"
#include <dataframe/Dataframe.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Decomposer.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
using namespace df;
namespace vf {
// any function of a Dataframe, which may raise an exception
struct FrameFn { Serie operator()(const Dataframe &) const; };
// any decomposer: nothing but key() has a body (key() makes the compiler emit the table of its virtual functions)
struct AnyDecomposer : public Decomposer {
    virtual void key();
    ~AnyDecomposer() override;
    Strings names(const Dataframe &, uint32_t, const Serie &, const String &) const override;
    Serie serie(const Dataframe &, uint32_t, const String &) const override;
};
void AnyDecomposer::key() {}
}
using namespace vf;
namespace drv {
UserDefinedDecomposer<FrameFn> user_defined(uint32_t z, const String &name, FrameFn &&f) { return UserDefinedDecomposer<FrameFn>(z, name, std::move(f)); }
}
template class df::UserDefinedDecomposer<FrameFn>;
