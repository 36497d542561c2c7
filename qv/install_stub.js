// Preloaded into the installer: another platform, and every connection goes to the test's server.
"use strict";
const os = require("os");
const net = require("net");
const { QV_PLATFORM, QV_ARCH, QV_PORT, QV_SPEED } = process.env;
os.platform = () => QV_PLATFORM;
os.arch = () => QV_ARCH;
Object.defineProperty(process, "platform", { value: QV_PLATFORM });
Object.defineProperty(process, "arch", { value: QV_ARCH });
const connect = net.Socket.prototype.connect;
net.Socket.prototype.connect = function (...args) {
  const normalized = Array.isArray(args[0]);
  const list = normalized ? args[0] : args;
  if (list[0] && typeof list[0] === "object") {
    list[0] = Object.assign({}, list[0], { host: "127.0.0.1", port: Number(QV_PORT), lookup: undefined });
    delete list[0].path;
  } else {
    list[0] = Number(QV_PORT);
    if (typeof list[1] === "string") list[1] = "127.0.0.1";
  }
  return connect.apply(this, args);
};
// Time limits of many seconds pass faster
const setTimeoutOf = net.Socket.prototype.setTimeout;
net.Socket.prototype.setTimeout = function (ms, ...rest) {
  return setTimeoutOf.call(this, ms >= 5000 ? ms / Number(QV_SPEED) : ms, ...rest);
};
