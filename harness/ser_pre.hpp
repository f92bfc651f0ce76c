// Serialization support for the explorer (C16): archive selection and the element's serialization.
#include <sstream>
#include <boost/archive/archive_exception.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/split_free.hpp>
#include <boost/serialization/version.hpp>
#ifndef VSER
#define VSER 0
#endif
#if VSER == 0
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
typedef boost::archive::text_oarchive OAr; typedef boost::archive::text_iarchive IAr;
#elif VSER == 1
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
typedef boost::archive::binary_oarchive OAr; typedef boost::archive::binary_iarchive IAr;
#else
#include <boost/archive/xml_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
typedef boost::archive::xml_oarchive OAr; typedef boost::archive::xml_iarchive IAr;
#endif
inline unsigned ser_cdver = 3;   // class version to be seen by the construct-data customisation
inline int ser_construct = 0;   // use of the construct-data customisation
namespace rt {
template <class Ar> void serialize(Ar& ar, Elem& e, const unsigned int v) {
  tick(K_FN); CHECK(v == 3, "the value is serialized with class version %u, it is 3", v); e.assert_ok();
  ar & boost::serialization::make_nvp("id", e.id); ar & boost::serialization::make_nvp("a", e.k[0]); ar & boost::serialization::make_nvp("b", e.k[1]); ar & boost::serialization::make_nvp("c", e.k[2]);
  tick(K_FN);
}
#ifdef VSER_CD
// values without default construction: constructor data are saved apart from the value
template <class Ar> void save_construct_data(Ar& ar, const Elem* e, const unsigned int v) { tick(K_FN); CHECK(v == 3, "save_construct_data is given class version %u, it is 3", v); ar << boost::serialization::make_nvp("cid", e->id); }
template <class Ar> void load_construct_data(Ar& ar, Elem* e, const unsigned int v) { tick(K_FN); CHECK(v == ser_cdver, "load_construct_data is given class version %u, not %u", v, ser_cdver); int id; ar >> boost::serialization::make_nvp("cid", id); ::new (e) Elem(id, -1, -1, -1); ++ser_construct; }
#else
template <class Ar> void load_construct_data(Ar&, Elem* e, const unsigned int v) { CHECK(v == ser_cdver, "load_construct_data is given class version %u, not %u", v, ser_cdver); ::new (e) Elem(); }
#endif
}
BOOST_CLASS_VERSION(rt::Elem, 3)
