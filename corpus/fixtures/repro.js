/** @type {string} */
const s = "foo";

const s2 = /** @type {string} */ (s);
