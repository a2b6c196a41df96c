#pragma once
namespace dingodb { class ServiceHelper {}; }
