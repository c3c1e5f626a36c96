#pragma once
namespace craftpp::result { template<typename T> class Result; }
